from solver.geometry import *
import math

s = lr_int(Vector(2000, 0), Vector(1, 0), Vector(0, 1), Vector(0, -1))
assert len(s) == 1, s
