from solver.method import *

g = MethodGraph()
g.add_method(SetMethod("a", int))
assert g.get("a") is int, g.get("a")
