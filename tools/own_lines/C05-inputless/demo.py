from solver.method import MethodGraph, SetMethod, AddMethod
g = MethodGraph()
g.add_variable("a", 1)
g.add_method(SetMethod("b", 2), prop=False)
g.add_method(AddMethod("a", "b", "c"), prop=False)
g.propagate()
assert g.get("b") == 2 and g.get("c") == 3, (g.get("b"), g.get("c"))
