from solver.geometric.configuration import Configuration as C
from solver.geometry import Vector as V
c = C({"a": V(0, 0)})
assert c != {"a": V(0, 0)}
assert c != C
