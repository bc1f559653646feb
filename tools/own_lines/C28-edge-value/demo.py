from solver.graph import Graph
g = Graph()
g.add_edge("a", "b", 10 ** 400)
str(g)
