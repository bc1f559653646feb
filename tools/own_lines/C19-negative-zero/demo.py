from solver.geometry import *
import math

assert not Vector(0, -1).is_negative()
assert not Vector(-1, 0).is_negative()
