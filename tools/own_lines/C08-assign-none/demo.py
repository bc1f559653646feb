from solver.method import *
assert AssignMethod("a", "b").execute({"b": ""}) == {"a": ""}
g = MethodGraph()
g.add_variable("b", "x")
g.add_method(AssignMethod("a", "b"))
g.set("b", "")
assert g.get("a") == ""
