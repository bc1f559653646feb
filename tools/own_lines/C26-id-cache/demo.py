from solver.geometric.cluster import *

a, b = Rigid(["a", "b", "c"]), Rigid(["a", "b", "d"])
x = a.common_constraints(b)
assert len(x) == 1
x.clear()
assert len(a.common_constraints(b)) == 1
