from solver.geometric.constraint import *
import functools
f = functools.partial(int, base=2)
assert "a" in str(FunctionConstraint(f, ["a"]))
