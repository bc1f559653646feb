from solver.geometric.cluster import Hedgehog
assert Hedgehog(0, [1, 2]).n_angles() == 1
