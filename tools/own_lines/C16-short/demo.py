from solver.geometry import *
r = rr_int(Vector(0, 0), Vector(1, 0), Vector(2, -5), Vector(3, 7.5))
assert len(r) == 1 and abs(r[0].x - 4) < 1e-9, r
