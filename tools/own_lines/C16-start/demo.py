from solver.geometry import *
import math

s = rr_int(Vector(0, 0), Vector(1, 0), Vector(3, 0), Vector(1, 1))
assert len(s) == 1, s
