from solver.graph import Graph
g = Graph()
g.add_edge(1, 2, "there")
g.add_edge(2, 1, "back")
h = g.reverse()
assert h.get(2, 1) == "there" and h.get(1, 2) == "back", (h.get(2, 1), h.get(1, 2))
