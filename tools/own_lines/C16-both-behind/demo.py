from solver.geometry import *
import math

assert rr_int(Vector(0, 0), Vector(-1, -1), Vector(2, 0), Vector(1, -1)) == []
assert len(rr_int(Vector(0, 0), Vector(1, 1), Vector(2, 0), Vector(-1, 1))) == 1
