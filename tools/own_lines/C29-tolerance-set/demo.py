from solver.geometry import *

import sys, threading
def interleave(a, b):
    out = []
    def other():
        out.append(b())
    def at(frame, event, arg):
        if event == "line":
            t = threading.Thread(target=other)
            t.start()
            t.join(5)
        return at
    def trace(frame, event, arg):
        return at if "/solver/" in frame.f_code.co_filename else None
    sys.settrace(trace)
    try:
        r = a()
    finally:
        sys.settrace(None)
    return r, out

a = lambda: len(ll_int(Vector(0, 0), Vector(3e4, 0), Vector(1, 1), Vector(0, 4e4)))
ra, rb = interleave(a, lambda: Scalar.tol_eq(1.0, 1.1))
assert ra == 1
assert not any(rb), rb
assert Scalar.abs_tol == 1e-08
