from solver.geometry import *
from solver.geometric.configuration import Configuration

a = Configuration({"p": Vector(0, 0), "q": Vector(0, 3)})
b = Configuration({"p": Vector(0, 0), "q": Vector(3, 0), "r": Vector(4, 1)})
m, flag = a.merge(b)
assert not flag, flag
assert abs(distance_2p(m.get("q"), m.get("r")) - distance_2p(b.get("q"), b.get("r"))) < 1e-6
assert distance_2p(m.get("r"), Vector(-1, 4)) < 1e-6, m
