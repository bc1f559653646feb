from solver.method import *
m = AssignMethod("a", "b")
assert m.execute({"b": 0}) == {"a": 0}
assert m.execute({"b": 5, "a": 1}) == {"a": 5}
assert m.execute({}) == {}
