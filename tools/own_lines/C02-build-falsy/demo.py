from solver.graph import Graph
g = Graph()
g.add_edge("a", "b", 0)
assert Graph(g).get("a", "b") == 0
