from solver.geometric.constraint import *
for r in (0, "", [], 1, "no"):
    assert FunctionConstraint(lambda *a: r, ["a"]).satisfied({"a": 1}) is False, r
assert FunctionConstraint(lambda *a: True, ["a"]).satisfied({"a": 1}) is True
