from solver.method import *
class Any(object):
    def __eq__(self, other):
        return True
    __hash__ = None
g = MethodGraph()
x = Any()
g.add_variable("b", x)
g.add_method(AssignMethod("a", "b"))
assert g.get("a") is x
