from solver.method import *
g = MethodGraph()
g.add_variable("a", 1)
g.set("a", 2, prop=False)
g.add_method(SetMethod("b", 3), prop=False)
g.propagate()
assert g.get("b") == 3, g.get("b")
