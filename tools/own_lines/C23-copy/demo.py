from solver.geometric.configuration import *
a, b = Configuration({"a": Vector(0, 0)}), Configuration({"b": Vector(1, 1)})
m, under = a.merge(b)
assert under and m.underconstrained
