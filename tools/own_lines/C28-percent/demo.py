from solver.geometric.constraint import *
class S(SelectionConstraint):
    def satisfied(self, mapping):
        return True
assert "a" in str(S("at least 50% of them", ["a"]))
