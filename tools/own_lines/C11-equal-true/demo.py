from solver.geometric.constraint import *
assert FunctionConstraint(lambda x: 1, ["a"]).satisfied({"a": 0}) is False
assert FunctionConstraint(lambda x: True, ["a"]).satisfied({"a": 0}) is True
