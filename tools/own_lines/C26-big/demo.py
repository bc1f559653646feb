import math
from solver.geometric.cluster import *
for n in range(2, 60):
    assert Hedgehog("c", range(n)).n_angles() == math.comb(n, 2), n
