from solver.geometry import *
import math

assert Vector(-1e20, -1e-5).is_negative()
