from solver.geometric.configuration import *
from solver.geometry import Vector
a = Configuration({"a": Vector(0, 0), "b": Vector(1, 0)})
m, _ = a.merge(Configuration({"c": Vector(1, 1)}))
assert m == Configuration(m.mapping)
