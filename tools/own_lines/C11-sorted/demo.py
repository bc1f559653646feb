from solver.geometric.constraint import FunctionConstraint
c = FunctionConstraint(lambda x, y: x < y, ["b", "a"])
assert c.satisfied({"a": 2, "b": 1}) and c.variables() == ["b", "a"]
