from solver.geometry import *
assert lr_int(Vector(0, -1), Vector(1, 0), Vector(0, 0), Vector(0, 1)) == []
assert len(lr_int(Vector(0, 1), Vector(1, 0), Vector(0, 0), Vector(0, 1))) == 1
