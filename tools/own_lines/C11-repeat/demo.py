from solver.geometric.constraint import *
seen = []
c = FunctionConstraint(lambda *a: seen.append(a) or True, ["a", "b", "a"])
assert c.satisfied({"a": 1, "b": 2}) and seen == [(1, 2, 1)], seen
