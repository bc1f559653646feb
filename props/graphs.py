"""C01 graph state, C02 derived graphs, C03 paths and connectivity"""

from hypothesis import strategies as st

from vkit import core
from vkit.core import Violation, check, refused, require, sut
from vkit.gen import absent, alias, mix, Lcg, histories, many_names, names, pick, seeds, sized_names, shuffled
from solver.graph import Graph

class Thing(object):
    """A value that equals only itself"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "Thing({!r})".format(self.n)


core.CASE_NAMESPACE.update(Thing=Thing)
VALUES = [None, 0, 1, -1, 2, 3.5, "", "v", (1, 2), (), False, frozenset([3]), Thing(1), Thing(2)]
value = st.sampled_from(VALUES)


def same(a, b):
    return type(a) is type(b) and a == b


class Model(object):
    def __init__(self):
        self.verts = {}
        self.edges = {}

    def addv(self, v):
        self.verts.setdefault(v, 1)

    def remv(self, v):
        del self.verts[v]
        for e in [e for e in self.edges if v in e]:
            del self.edges[e]

    def adde(self, v, w, val=1):
        self.addv(v)
        self.addv(w)
        self.edges.setdefault((v, w), val)

    def set(self, v, w, val):
        self.adde(v, w, val)
        self.edges[(v, w)] = val

    def copy(self):
        m = Model()
        m.verts = dict(self.verts)
        m.edges = dict(self.edges)
        return m


def as_list(what, x):
    """The elements of a list (or another sequence)"""
    with sut(what):
        return [x[i] for i in range(len(x))]


def same_members(what, got, expected, listed=True):
    """got lists exactly the expected members, each once"""
    with sut(what):
        got = as_list(what, got) if listed else list(got)
    require(len(got) == len(expected) and set(got) == set(expected) and len(set(got)) == len(got),
            "{} is {!r}, expected exactly {!r}", what, got, list(expected))


def outcome(fn):
    """What a query about something absent gives: a refusal or an answer"""
    try:
        x = fn()
    except Violation:
        raise
    except Exception:
        return "refused"
    return list(x) if isinstance(x, (list, tuple, set, frozenset)) else x


def compare_absent(g, m, universe):
    """What is not in the graph (any more) is as if it had never been there"""
    with sut("Graph()"):
        empty = Graph()
    for i, v in enumerate(universe):
        if v not in m.verts:
            for q in ("outgoing_vertices", "ingoing_vertices", "adjacent_vertices", "outgoing_edges", "ingoing_edges",
                      "adjacent_edges"):
                a, b = outcome(lambda: getattr(g, q)(v)), outcome(lambda: getattr(empty, q)(v))
                require(same(a, b), "{} of the absent {!r} gives {!r}, but {!r} if it was never there", q, v, a, b)
        for w in (universe[i - 1], universe[i - 2], v):
            if (v, w) not in m.edges:
                with sut("a graph of two vertices"):
                    fresh = Graph()
                    for x in (v, w):
                        if x in m.verts:
                            fresh.add_vertex(x)
                a, b = outcome(lambda: g.get(v, w)), outcome(lambda: fresh.get(v, w))
                require(a == b == "refused", "get of the absent edge ({!r}, {!r}) gives {!r} ({!r} if it was never there)",
                        v, w, a, b)


def ask(g, m, k):
    """One query or another, which is nobody's business but the caller's: what follows must not depend on it"""
    vs = list(m.verts)
    if not vs:
        with sut("queries of an empty graph"):
            return [g.vertices, g.edges, g.copy, g.reverse, g.connected_subsets][k % 5]()
    v, w = vs[k // 23 % len(vs)], vs[(k // 23 * 7 + k) % len(vs)]
    es = list(m.edges) or [None]
    e = es[k % len(es)]
    with sut("queries of {!r} and {!r}".format(v, w)):
        return [lambda: g.path(v, w), lambda: g.has_edge(v, w), lambda: g.has_vertex(v), lambda: g.has_bi_edge(v, w),
                lambda: g.has_any_edge(v, w), lambda: g.get(*e) if e else None, g.vertices, g.edges,
                lambda: g.subgraph([v, w]), g.copy, g.reverse, lambda: g.outgoing_vertices(v),
                lambda: g.ingoing_vertices(v), lambda: g.adjacent_vertices(v), lambda: g.outgoing_edges(v),
                lambda: g.ingoing_edges(v), lambda: g.adjacent_edges(v), lambda: g.connected(v),
                lambda: g.connected_via_outgoing(v), lambda: g.connected_via_ingoing(v), g.connected_subsets,
                lambda: str(g), lambda: g.path(v, v)][k % 23]()


def compare(g, m, universe, full=True):
    """Every query of g against the model"""
    k = 5 * len(m.edges) + 11 * len(m.verts)
    ask(g, m, k)
    with sut("vertices()"):
        verts = g.vertices()
    same_members("vertices()", verts, list(m.verts))
    ask(g, m, k + 1)
    with sut("edges()"):
        edges = g.edges()
    same_members("edges()", edges, list(m.edges))
    for i, ((v, w), val) in enumerate(m.edges.items()):
        if i < 8:
            ask(g, m, k + 2 + i)
        with sut("get({!r}, {!r})".format(v, w)):
            got = g.get(v, w)
        require(same(got, val), "get({!r}, {!r}) is {!r}, expected {!r}", v, w, got, val)
    for v in universe:
        with sut("has_vertex({!r})".format(v)):
            got = g.has_vertex(v)
        require(bool(got) == (v in m.verts), "has_vertex({!r}) is {!r}", v, got)
        if full:
            for w in map(alias, universe):
                f, r = (v, w) in m.edges, (w, v) in m.edges
                with sut("edge membership of {!r}, {!r}".format(v, w)):
                    a, b, c = g.has_edge(v, w), g.has_bi_edge(v, w), g.has_any_edge(v, w)
                require(bool(a) == f, "has_edge({!r}, {!r}) is {!r}", v, w, a)
                require(bool(b) == (f and r), "has_bi_edge({!r}, {!r}) is {!r}", v, w, b)
                require(bool(c) == (f or r), "has_any_edge({!r}, {!r}) is {!r}", v, w, c)
    if full:
        compare_absent(g, m, list(universe))
    outs = {v: [] for v in m.verts}
    ins = {v: [] for v in m.verts}
    for (v, w) in m.edges:
        outs[v].append(w)
        ins[w].append(v)
    for i, v in enumerate(map(alias, m.verts)):
        with sut("neighbour queries of {!r}".format(v)):
            ov, iv, av = g.outgoing_vertices(v), g.ingoing_vertices(v), g.adjacent_vertices(v)
            oe, ie, ae = g.outgoing_edges(v), g.ingoing_edges(v), g.adjacent_edges(v)
            if i < 6:
                # asked again in another order, with other questions between
                again = []
                for j, fn in enumerate((g.ingoing_edges, g.adjacent_vertices, g.outgoing_vertices, g.ingoing_vertices,
                                        g.adjacent_edges, g.outgoing_edges)):
                    ask(g, m, k + 3 * i + 5 * j)
                    again.append(list(fn(v)))
                require([set(x) for x in again] == [set(x) for x in (ie, av, ov, iv, ae, oe)], "the neighbours of {!r} are "
                        "{!r}, but {!r} when asked again", v, (ie, av, ov, iv, ae, oe), again)
        same_members("outgoing_vertices({!r})".format(v), ov, outs[v])
        same_members("ingoing_vertices({!r})".format(v), iv, ins[v])
        same_members("adjacent_vertices({!r})".format(v), av, list(dict.fromkeys(outs[v] + ins[v])))
        same_members("outgoing_edges({!r})".format(v), oe, [(v, w) for w in outs[v]])
        same_members("ingoing_edges({!r})".format(v), ie, [(w, v) for w in ins[v]])
        ae = as_list("adjacent_edges", ae)
        want = set([(v, w) for w in outs[v]] + [(w, v) for w in ins[v]])
        # a self loop is both ingoing and outgoing, and may be listed as each
        require(set(ae) == want and len(ae) in (len(want), len(outs[v]) + len(ins[v])),
                "adjacent_edges({!r}) is {!r}, expected {!r}", v, ae, want)


def apply_op(g, m, op, ns, note):
    """Applies one encoded operation to the graph and to the model"""
    ask(g, m, 3 * len(m.edges) + 7 * len(m.verts) + len(repr(op)))
    kind = op[0]
    n = lambda i: pick(ns, i)
    if kind == "addv":
        with sut("add_vertex"):
            g.add_vertex(n(op[1]))
        m.addv(n(op[1]))
    elif kind == "adde":
        v, w = n(op[1]), n(op[2])
        with sut("add_edge"):
            if op[3] == "default":
                g.add_edge(v, w)
            else:
                g.add_edge(v, w, op[3][0])
        note.label("re-add edge", (v, w) in m.edges)
        note.label("self loop", v == w)
        if op[3] == "default":
            m.adde(v, w)
        else:
            m.adde(v, w, op[3][0])
    elif kind == "addb":
        v, w = n(op[1]), n(op[2])
        with sut("add_bi_edge"):
            if op[3] == "default":
                g.add_bi_edge(v, w)
            else:
                g.add_bi_edge(v, w, op[3][0])
        val = 1 if op[3] == "default" else op[3][0]
        m.adde(v, w, val)
        m.adde(w, v, val)
    elif kind == "set":
        v, w = n(op[1]), n(op[2])
        with sut("set"):
            g.set(v, w, op[3])
        note.label("overwrite value", (v, w) in m.edges)
        m.set(v, w, op[3])
    elif kind == "setb":
        v, w = n(op[1]), n(op[2])
        with sut("set_bi_edge"):
            g.set_bi_edge(v, w, op[3])
        m.set(v, w, op[3])
        m.set(w, v, op[3])
    elif kind == "remv":
        v = n(op[1])
        if v in m.verts:
            deg = sum(1 for e in m.edges if v in e)
            note.label("remove connected vertex", deg > 0)
            note.count(deg > 0)
            with sut("remove_vertex({!r})".format(v)):
                g.remove_vertex(v)
            m.remv(v)
        else:
            note.label("refused removal")
            refused("remove_vertex of absent {!r}".format(v), lambda: g.remove_vertex(v))
    elif kind == "reme":
        v, w = n(op[1]), n(op[2])
        if (v, w) in m.edges:
            with sut("remove_edge({!r}, {!r})".format(v, w)):
                g.remove_edge(v, w)
            del m.edges[(v, w)]
            note.label("remove edge")
            note.count()
        else:
            note.label("refused removal")
            refused("remove_edge of absent ({!r}, {!r})".format(v, w), lambda: g.remove_edge(v, w))
    elif kind == "remx":
        # an existing edge
        if m.edges:
            v, w = list(m.edges)[op[1] % len(m.edges)]
            with sut("remove_edge({!r}, {!r})".format(v, w)):
                g.remove_edge(v, w)
            del m.edges[(v, w)]
            note.label("remove edge")
            note.count()
    elif kind == "remb":
        v, w = n(op[1]), n(op[2])
        # only with both directions present (a loop is its own reverse) or both absent: otherwise the outcome is not
        # specified
        if (v, w) in m.edges and (w, v) in m.edges:
            with sut("remove_bi_edge({!r}, {!r})".format(v, w)):
                g.remove_bi_edge(v, w)
            del m.edges[(v, w)]
            m.edges.pop((w, v), None)
            note.label("remove bi edge")
            note.count()
        elif (v, w) not in m.edges and (w, v) not in m.edges:
            refused("remove_bi_edge of absent edges", lambda: g.remove_bi_edge(v, w))
    elif kind == "absent":
        a = absent(ns)[op[1] % len(absent(ns))]
        refused("remove_vertex of absent {!r}".format(a), lambda: g.remove_vertex(a))
        refused("remove_edge to absent {!r}".format(a), lambda: g.remove_edge(n(op[2]), a))
        refused("remove_edge from absent {!r}".format(a), lambda: g.remove_edge(a, n(op[2])))


idx = st.integers(0, 11)
edge_value = mix(st.just("default"), st.tuples(value))
op = mix(
    st.tuples(st.just("adde"), idx, idx, edge_value),
    st.tuples(st.just("adde"), idx, idx, edge_value),
    st.tuples(st.just("addv"), idx),
    st.tuples(st.just("addb"), idx, idx, edge_value),
    st.tuples(st.just("set"), idx, idx, value),
    st.tuples(st.just("setb"), idx, idx, value),
    st.tuples(st.just("remv"), idx),
    st.tuples(st.just("reme"), idx, idx),
    st.tuples(st.just("remx"), st.integers(0, 30)),
    st.tuples(st.just("remx"), st.integers(0, 30)),
    st.tuples(st.just("remb"), idx, idx),
    st.tuples(st.just("absent"), st.integers(0, 9), idx),
)
op_build = mix(
    st.tuples(st.just("adde"), idx, idx, edge_value),
    st.tuples(st.just("adde"), idx, idx, edge_value),
    st.tuples(st.just("adde"), idx, idx, edge_value),
    st.tuples(st.just("addv"), idx),
    st.tuples(st.just("set"), idx, idx, value),
    st.tuples(st.just("addb"), idx, idx, edge_value),
    st.tuples(st.just("remx"), st.integers(0, 30)),
    st.tuples(st.just("remv"), idx),
)


def snapshot(g, m):
    out = []
    with sut("queries"):
        out.append(("vertices()", g.vertices()))
        out.append(("edges()", g.edges()))
        for v in m.verts:
            out.append(("outgoing_vertices({!r})".format(v), g.outgoing_vertices(v)))
            out.append(("ingoing_vertices({!r})".format(v), g.ingoing_vertices(v)))
            out.append(("outgoing_edges({!r})".format(v), g.outgoing_edges(v)))
    return [(w, x, as_list(w, x)) for w, x in out]


@check("C01", "history", st.tuples(names(1, 6), histories(st.tuples(st.integers(0, 3), op), 40)), quick=700,
       rule="histories of up to 40 graph edits on two graphs over up to 6 arbitrary hashable vertices, all queries "
            "compared with a dictionary model after every edit; non-trivial: an existing edge or connected vertex is "
            "removed")
def c01_history(case, note):
    ns, ops = case
    with sut("Graph()"):
        gs = [Graph(), Graph()]
    ms = [Model(), Model()]
    universe = list(ns) + absent(ns)[1:5]
    for k, o in ops:
        # mostly the first graph, sometimes a second one that must stay separate
        k = 1 if k == 3 else 0
        snap = snapshot(gs[k], ms[k])
        apply_op(gs[k], ms[k], o, ns, note)
        compare(gs[k], ms[k], universe)
        for what, live, then in snap:
            require(as_list(what, live) == then, "the list returned earlier by {} changed with {!r}", what, o)
    for g, m in zip(gs, ms):
        compare(g, m, universe)


@check("C01", "edit_while_listing", st.tuples(names(2, 6), histories(op_build, 30), st.integers(0, 4), idx),
       quick=500,
       rule="graphs emptied in part while looping over the result of a query; non-trivial: at least two elements are "
            "removed in the loop")
def c01_drain(case, note):
    ns, ops, how, i = case
    with sut("Graph()"):
        g = Graph()
    m = Model()
    for o in ops:
        apply_op(g, m, o, ns, note)
    note.nontrivial = False
    v = ns[i % len(ns)]
    removed = 0
    if how == 0:
        with sut("removing every vertex of vertices()"):
            for x in g.vertices():
                g.remove_vertex(x)
                removed += 1
        m = Model()
    elif how == 1:
        with sut("removing every edge of edges()"):
            for x, y in g.edges():
                g.remove_edge(x, y)
                removed += 1
        m.edges = {}
    elif v in m.verts and how == 2:
        with sut("removing every outgoing edge"):
            for w in g.outgoing_vertices(v):
                g.remove_edge(v, w)
                removed += 1
        for e in [e for e in m.edges if e[0] == v]:
            del m.edges[e]
    elif v in m.verts and how == 3:
        with sut("removing every ingoing edge"):
            for x, y in g.ingoing_edges(v):
                g.remove_edge(x, y)
                removed += 1
        for e in [e for e in m.edges if e[1] == v]:
            del m.edges[e]
    elif v in m.verts:
        with sut("removing every adjacent vertex"):
            for w in g.adjacent_vertices(v):
                g.remove_vertex(w)
                removed += 1
        for w in list(dict.fromkeys([e[1] for e in m.edges if e[0] == v] + [e[0] for e in m.edges if e[1] == v])):
            m.remv(w)
    note.count(removed >= 2)
    compare(g, m, list(ns))


@check("C01", "large", st.tuples(seeds, st.integers(10, 60), st.integers(50, 400), st.integers(1, 10)), quick=40,
       rule="long histories (up to 400 edits) on up to 60 vertices, compared with the model four times; every case is "
            "non-trivial")
def c01_large(case, note):
    seed, n, length, rem = case
    r = Lcg(seed)
    ns = sized_names(seed, n)
    with sut("Graph()"):
        g = Graph()
    m = Model()
    for count in range(length):
        if count in (length // 4, length // 2, 3 * length // 4):
            compare(g, m, ns, full=False)
        k = r.below(20)
        if k < rem and k % 2:
            o = ("remx", r.below(1000))
        elif k < rem:
            o = ("remv", r.below(n)) if r.below(4) == 0 else ("remb", r.below(n), r.below(n))
        elif k < 18:
            o = ("adde", r.below(n), r.below(n), (VALUES[r.below(len(VALUES))],))
        elif k == 18:
            o = ("addb", r.below(n), r.below(n), "default")
        else:
            o = ("set", r.below(n), r.below(n), VALUES[r.below(len(VALUES))])
        apply_op(g, m, o, ns, note)
    note.count()
    compare(g, m, ns)


def hub_graph(r, n, note):
    """A vertex with up to n neighbours each way, some of them both, values, and edges between a few others"""
    ns = many_names(r, n + 1)
    hub = ns[-1]
    with sut("Graph()"):
        g = Graph()
    m = Model()
    both = r.below(3)
    for i in shuffled(r, range(n)):
        k = 2 if both == 2 else r.below(3)
        val = VALUES[r.below(len(VALUES))]
        if k != 1:
            apply_op(g, m, ("adde", n, i, (val,)), ns, note)
        if k != 0:
            apply_op(g, m, ("adde", i, n, (i,)), ns, note)
        if r.below(4) == 0:
            apply_op(g, m, ("adde", i, r.below(n), (val,)), ns, note)
    if r.below(2):
        apply_op(g, m, ("set", n, n, "loop"), ns, note)
    return g, m, ns, hub


@check("C01", "wide", st.tuples(seeds, st.integers(20, 250)), quick=12, thorough=300,
       rule="a vertex with up to 250 neighbours, from which edges and then the vertex are removed, and which is put back; "
            "every case is non-trivial")
def c01_wide(case, note):
    seed, n = case
    r = Lcg(seed)
    g, m, ns, hub = hub_graph(r, n, note)
    compare(g, m, ns, full=False)
    for _ in range(n // 2):
        e = list(m.edges)[r.below(len(m.edges))] if m.edges else (hub, hub)
        apply_op(g, m, ("reme", ns.index(e[0]), ns.index(e[1])), ns, note)
        if r.below(3) == 0:
            apply_op(g, m, ("set", ns.index(e[0]), ns.index(e[1]), VALUES[r.below(len(VALUES))]), ns, note)
    compare(g, m, ns, full=False)
    apply_op(g, m, ("remv", n), ns, note)
    compare(g, m, ns, full=False)
    apply_op(g, m, ("adde", r.below(n), n, "default"), ns, note)
    compare(g, m, ns, full=False)
    note.count()
    for i in range(40):
        v, w = (hub, ns[r.below(n + 1)])[::1 - 2 * (i % 2)]
        with sut("edge membership"):
            a, b, c = g.has_edge(v, w), g.has_bi_edge(v, w), g.has_any_edge(v, w)
        require((bool(a), bool(b), bool(c)) == ((v, w) in m.edges, (v, w) in m.edges and (w, v) in m.edges,
                                                (v, w) in m.edges or (w, v) in m.edges),
                "membership of {!r}, {!r} is {!r}, {!r}, {!r}", v, w, a, b, c)


# ---------------------------------------------------------------- C02

def derived(kind, g, m, ns, sel, seltype):
    """A graph derived from g, and its model"""
    ask(g, m, 5 * len(m.edges) + 11 * len(m.verts) + 3 * len(kind))
    d = Model()
    if kind in ("copy", "ctor"):
        d = m.copy()
        with sut(kind):
            h = g.copy() if kind == "copy" else Graph(g)
    elif kind == "ctor_none":
        with sut("Graph(None)"):
            h = Graph(None)
    elif kind in ("reverse", "reverse2"):
        d = m.copy()
        if kind == "reverse":
            d.edges = {(w, v): val for (v, w), val in m.edges.items()}
        with sut("reverse"):
            h = g.reverse()
            if kind == "reverse2":
                h = h.reverse()
    else:
        chosen = [(ns + absent(ns)[3:5])[i % (len(ns) + 2)] for i in sel]
        for v in chosen:
            if v in m.verts:
                d.addv(v)
        for (v, w), val in m.edges.items():
            if v in d.verts and w in d.verts:
                d.edges[(v, w)] = val
        with sut("subgraph"):
            h = g.subgraph(seltype(chosen))
    return h, d


@check("C02", "derive", st.tuples(
    names(1, 6), histories(op_build, 25),
    st.lists(st.tuples(st.sampled_from(["copy", "ctor", "ctor_none", "reverse", "reverse", "reverse2", "sub", "sub"]),
                       st.lists(st.integers(0, 7), max_size=8), st.integers(0, 2), st.lists(op, max_size=5),
                       st.lists(op, max_size=5)), min_size=1, max_size=3)), quick=600,
    rule="graphs built by edit histories, up to three derivations (chained) each followed by edits of both sides; "
         "non-trivial: the source has at least two edges")
def c02_derive(case, note):
    ns, build, steps = case
    with sut("Graph()"):
        g = Graph()
    m = Model()
    for o in build:
        apply_op(g, m, o, ns, note)
    note.nontrivial = len(m.edges) >= 2
    quiet = type(note)()
    universe = list(ns) + absent(ns)[1:5]
    for kind, sel, t, ops_derived, ops_source in steps:
        note.label(kind)
        note.label("isolated vertex", any(not any(v in e for e in m.edges) for v in m.verts))
        h, d = derived(kind, g, m, list(map(alias, ns)) if len(sel) % 2 else ns, sel, [list, tuple, set][t])
        compare(h, d, universe)
        compare(g, m, universe)
        for o in ops_derived:
            apply_op(h, d, o, ns, quiet)
        compare(g, m, universe)
        compare(h, d, universe)
        for o in ops_source:
            apply_op(g, m, o, ns, quiet)
        compare(h, d, universe)
        compare(g, m, universe)
        # continue with the derived graph as the next source
        g, m = h, d


@check("C02", "large", st.tuples(seeds, st.integers(5, 60), st.integers(0, 300),
                                 st.sampled_from(["copy", "ctor", "reverse", "reverse2", "sub"])), quick=60,
       rule="graphs of up to 60 vertices and 300 edges; every case is non-trivial")
def c02_large(case, note):
    seed, n, e, kind = case
    r = Lcg(seed)
    ns = [i if i % 3 else ("v", i) for i in range(n)]
    with sut("Graph()"):
        g = Graph()
    m = Model()
    for v in ns:
        with sut("add_vertex"):
            g.add_vertex(v)
        m.addv(v)
    for _ in range(e):
        apply_op(g, m, ("set", r.below(n), r.below(n), VALUES[r.below(len(VALUES))]), ns, note)
    h, d = derived(kind, g, m, ns, [r.below(n + 2) for _ in range(n)], list)
    note.count()
    note.label(kind)
    compare(h, d, ns, full=False)
    compare(g, m, ns, full=False)


@check("C02", "wide", st.tuples(seeds, st.integers(20, 200), st.lists(st.sampled_from(
    ["copy", "ctor", "reverse", "reverse2", "sub"]), min_size=1, max_size=3)), quick=12, thorough=300,
    rule="chained derivations of graphs with a vertex of up to 200 neighbours, then edits of either side; every case is "
         "non-trivial")
def c02_wide(case, note):
    seed, n, kinds = case
    r = Lcg(seed)
    g, m, ns, hub = hub_graph(r, n, note)
    note.count()
    for kind in kinds:
        sel = [i for i in range(n + 1) if r.below(8)] + [n, 0]
        h, d = derived(kind, g, m, ns, sel, [list, tuple, set][r.below(3)])
        compare(h, d, ns, full=False)
        for x, y in ((h, d), (g, m)):
            apply_op(x, y, ("remv", r.below(n)), ns, note)
            apply_op(x, y, ("set", n, r.below(n), "later"), ns, note)
        compare(h, d, ns, full=False)
        compare(g, m, ns, full=False)
        g, m = h, d


# ---------------------------------------------------------------- C03

def reach(start, nbrs):
    """Vertices reachable by at least one step"""
    seen = set()
    front = list(nbrs[start])
    while front:
        x = front.pop()
        if x not in seen:
            seen.add(x)
            front.extend(nbrs[x])
    return seen


def check_connectivity(g, m, pairs, verts, note):
    outs = {v: set() for v in m.verts}
    ins = {v: set() for v in m.verts}
    for (v, w) in m.edges:
        outs[v].add(w)
        ins[w].add(v)
    both = {v: outs[v] | ins[v] for v in m.verts}
    reached = {}
    k = 5 * len(m.edges) + 11 * len(m.verts)
    for i, (v, w) in enumerate(pairs):
        ask(g, m, k + i)
        if v not in reached:
            reached[v] = reach(v, outs)
        v = alias(v)
        with sut("path({!r}, {!r})".format(v, w)):
            p = list(g.path(v, w))
        if w in reached[v]:
            note.label("cycle" if v == w else "path", 1)
            require(len(p) > 0, "path({!r}, {!r}) found no path although there is one", v, w)
            require(len(p) >= 2 and p[0] == v and p[-1] == w, "path({!r}, {!r}) is {!r}", v, w, p)
            for a, b in zip(p, p[1:]):
                require((a, b) in m.edges, "path({!r}, {!r}) is {!r}, but there is no edge {!r} -> {!r}", v, w, p, a, b)
            note.label("path of 3 or more edges", len(p) > 3)
            note.count(len(p) > 2)
        else:
            note.label("no path")
            require(p == [], "path({!r}, {!r}) is {!r} although there is none", v, w, p)
    for v in map(alias, verts):
        for what, fn, nbrs in (
                ("connected({!r})".format(v), lambda: g.connected(v), both),
                ("connected({!r}, ingoing=True, outgoing=True)".format(v),
                 lambda: g.connected(v, ingoing=True, outgoing=True), both),
                ("connected({!r}, True, True)".format(v), lambda: g.connected(v, True, True), both),
                ("connected({!r}, False, True)".format(v), lambda: g.connected(v, False, True), outs),
                ("connected({!r}, True, False)".format(v), lambda: g.connected(v, True, False), ins),
                ("connected({!r}, ingoing=False)".format(v), lambda: g.connected(v, ingoing=False), outs),
                ("connected({!r}, outgoing=False)".format(v), lambda: g.connected(v, outgoing=False), ins),
                ("connected_via_outgoing({!r})".format(v), lambda: g.connected_via_outgoing(v), outs),
                ("connected_via_ingoing({!r})".format(v), lambda: g.connected_via_ingoing(v), ins)):
            k += 1
            ask(g, m, k)
            with sut(what):
                got = fn()
            same_members(what, got, reach(v, nbrs) - {v}, listed=False)
    # components
    comps = []
    left = set(m.verts)
    while left:
        v = left.pop()
        c = reach(v, both) | {v}
        left -= c
        comps.append(frozenset(c))
    ask(g, m, k + 2)
    with sut("connected_subsets()"):
        got = [list(s) for s in g.connected_subsets()]
    for s in got:
        require(len(set(s)) == len(s), "connected_subsets() repeats a vertex in {!r}", s)
    require(len(got) == len(comps) and set(map(frozenset, got)) == set(comps),
            "connected_subsets() is {!r}, expected {!r}", got, comps)
    note.label("several components", len(comps) > 1)


@check("C03", "small", st.tuples(names(2, 7), histories(st.tuples(st.integers(0, 6), st.integers(0, 6)), 14),
                                 st.lists(st.integers(0, 6), max_size=3), st.lists(op, max_size=4)), quick=1200,
       rule="graphs of up to 7 vertices, some after removals, all pairs and all vertices queried; non-trivial: some "
            "path has at least two edges")
def c03_small(case, note):
    ns, edges, iso, ops = case
    with sut("building the graph"):
        g = Graph()
        m = Model()
        for i in iso:
            g.add_vertex(pick(ns, i))
            m.addv(ns[i % len(ns)])
        for i, j in edges:
            g.add_edge(pick(ns, i), pick(ns, j))
            m.adde(ns[i % len(ns)], ns[j % len(ns)])
    quiet = type(note)()
    for k, o in enumerate(ops):
        # asked before and after each edit
        vs = list(m.verts)
        check_connectivity(g, m, [(v, w) for v in vs[k % 3:] for w in vs[:4]], vs[:3], quiet)
        apply_op(g, m, o, ns, quiet)
    vs = list(m.verts)
    check_connectivity(g, m, [(v, w) for v in vs for w in vs], vs, note)
    compare(g, m, ns, full=False)


@check("C03", "large", st.tuples(seeds, st.integers(5, 60), st.sampled_from(
    ["chain", "cycle", "two", "tree", "sparse", "dense", "layers", "back"])), quick=150,
    rule="chains, cycles, trees, layered, sparse and dense graphs of up to 60 vertices, inserted in shuffled order; "
         "non-trivial: some path has at least two edges")
def c03_large(case, note):
    seed, n, kind = case
    r = Lcg(seed)
    order = list(range(n))
    for i in range(n - 1, 0, -1):
        j = r.below(i + 1)
        order[i], order[j] = order[j], order[i]
    es = []
    if kind in ("chain", "cycle", "back"):
        es = [(i, i + 1) for i in range(n - 1)]
        if kind == "cycle":
            es.append((n - 1, 0))
        if kind == "back":
            es += [(i + 1, i) for i in range(n - 1) if r.below(3)]
    elif kind == "two":
        h = n // 2
        es = [(i, (i + 1) % h) for i in range(h)] + [(h + i, h + (i + 1) % (n - h)) for i in range(n - h)]
        if r.below(2):
            es.append((r.below(h), h + r.below(n - h)))
    elif kind == "tree":
        es = [((i - 1) // 2, i) if r.below(2) else (i, (i - 1) // 2) for i in range(1, n)]
    elif kind == "sparse":
        es = [(r.below(n), r.below(n)) for _ in range(n)]
    elif kind == "dense":
        es = [(r.below(n), r.below(n)) for _ in range(6 * n)]
    elif kind == "layers":
        es = [(i, j) for i in range(n) for j in range(n) if j // 5 == i // 5 + 1 and r.below(3)]
    for i in range(len(es) - 1, 0, -1):
        j = r.below(i + 1)
        es[i], es[j] = es[j], es[i]
    name = lambda i: order[i] if order[i] % 2 else "n%d" % order[i]
    with sut("building the graph"):
        g = Graph()
        m = Model()
        for i in range(n):
            g.add_vertex(name(i))
            m.addv(name(i))
        for i, j in es:
            g.add_edge(name(i), name(j))
            m.adde(name(i), name(j))
    note.label(kind)
    pairs = [(name(0), name(n - 1)), (name(n - 1), name(0)), (name(0), name(0))]
    pairs += [(name(r.below(n)), name(r.below(n))) for _ in range(40)]
    check_connectivity(g, m, pairs, [name(r.below(n)) for _ in range(6)], note)


@check("C03", "wide", st.tuples(seeds, st.integers(20, 250), st.sampled_from(["hub", "out star", "in star", "islands",
                                                                             "bipartite", "complete"])), quick=12, thorough=300,
       rule="stars and hubs of up to 250 neighbours, up to 250 components, complete and bipartite graphs; non-trivial: some "
            "path has at least two edges")
def c03_wide(case, note):
    seed, n, kind = case
    r = Lcg(seed)
    if kind == "hub":
        g, m, ns, hub = hub_graph(r, n, note)
    else:
        ns = many_names(r, n + 1)
        es = []
        if kind == "out star":
            es = [(n, i) for i in range(n)]
        elif kind == "in star":
            es = [(i, n) for i in range(n)]
        elif kind == "islands":
            es = [(i, i + 1) if r.below(2) else (i + 1, i) for i in range(n) if r.below(3) == 0]
        elif kind == "bipartite":
            h = min(n // 2, 25)
            es = [(i, h + j) for i in range(h) for j in range(h)]
        else:
            h = min(n, 30)
            es = [(i, j) for i in range(h) for j in range(h) if i != j or r.below(4) == 0]
        with sut("building the graph"):
            g = Graph()
            m = Model()
            for v in ns:
                g.add_vertex(v)
                m.addv(v)
            for i, j in shuffled(r, es):
                g.add_edge(ns[i], ns[j])
                m.adde(ns[i], ns[j])
    note.label(kind)
    v = lambda: ns[r.below(n + 1)]
    pairs = [(ns[n], ns[n]), (v(), ns[n]), (ns[n], v())] + [(v(), v()) for _ in range(12)]
    check_connectivity(g, m, pairs, [ns[n], v(), v()], note)
    apply_op(g, m, ("remv", n), ns, note)
    check_connectivity(g, m, [(a, b) for a, b in pairs if a in m.verts and b in m.verts], [x for x in ns[:3] if x in m.verts],
                       note)


@check("C03", "deep", st.tuples(seeds, st.integers(1100, 2200), st.sampled_from(["chain", "cycle", "back", "comb"])), quick=8,
       rule="chains, cycles and combs of more than a thousand vertices in a row; every case is non-trivial")
def c03_deep(case, note):
    seed, n, kind = case
    r = Lcg(seed)
    es = [(i, i + 1) for i in range(n - 1)]
    if kind == "cycle":
        es.append((n - 1, 0))
    elif kind == "back":
        es = [(b, a) for a, b in es]
    elif kind == "comb":
        es += [(i, n + i) for i in range(0, n, 7)]
    if r.below(2):
        es.reverse()
    with sut("building the graph"):
        g = Graph()
        m = Model()
        for i, j in es:
            g.add_edge(i, j)
            m.adde(i, j)
    note.label(kind)
    a, b = r.below(n), r.below(n)
    check_connectivity(g, m, [(0, n - 1), (n - 1, 0), (a, b), (a, a)], [0, n - 1, a], note)
    note.count()
