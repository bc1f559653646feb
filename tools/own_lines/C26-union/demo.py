from solver.geometric.cluster import *
assert len(Rigid("ab").common_constraints(Rigid("ba"))) == 1
