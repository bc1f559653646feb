from solver.graph import Graph
g = Graph()
g.add_bi_edge("a", "b")
g.add_edge("c", "b")
g.remove_vertex("a")
assert g.ingoing_vertices("b") == ["c"], g.ingoing_vertices("b")
assert g.adjacent_vertices("b") == ["c"], g.adjacent_vertices("b")
