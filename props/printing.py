"""C28 printing and logging"""

import functools
import logging
import re
from fractions import Fraction

from hypothesis import strategies as st

from vkit.core import check, require, sut
from vkit.gen import (ABSENT, Call, H, Lcg, Odd, coord, inf, log_uniform, many_names, mix, names, nan, point, seeds,
                      signed)
from props.methods import World, long_ops, same, step
from props.triples import angles, triple
from solver import geometry
from solver.geometric.cluster import Balloon, Hedgehog, Rigid
from solver.geometric.configuration import Configuration
from solver.geometric.constraint import (ConstraintGraph, FunctionConstraint, NotAcuteConstraint, NotClockwiseConstraint,
                                         NotCounterClockwiseConstraint, NotObtuseConstraint, PlusConstraint,
                                         SelectionConstraint)
from solver.geometric.relation import Angle, Distance
from solver.geometry import Matrix, Vector
from solver.graph import Graph
from solver.method import (AddMethod, AssignMethod, Method, MethodGraph, MethodGraphCycleException,
                           MethodGraphDetermineException, MultiMethod, MultiVariable, SetMethod, SubMethod,
                           SumProdMethod)

#: more names that are awkward in text
AWKWARD = ["{0}", "{x}", "%s", "%d %(a)s", "é", "a\nb", "{", "}", "%", "'", b"bytes", (("a",), 1), range(3), True,
           "a long name of a variable, as it might be generated by some program: 0123456789 " * 3, tuple(range(60)),
           10 ** 70 + 1, frozenset(range(40))]


def texts(obj, what):
    """The text forms"""
    with sut("str of {}".format(what)):
        s = str(obj)
    with sut("repr of {}".format(what)):
        r = repr(obj)
    with sut("formatting {}".format(what)):
        f = "{}".format(obj) + "%s" % (obj,)
    require(isinstance(s, str) and isinstance(r, str) and s in f, "the text of {} is {!r}", what, s)
    return s


def mentions(text, items, what):
    for i in items:
        require(str(i) in text or repr(i) in text, "the text of {} does not mention {!r}: {!r}", what, i, text)


all_names = mix(names(3, 7), names(3, 7), st.lists(st.sampled_from(AWKWARD), min_size=3, max_size=7, unique_by=repr))
VALUES = [0, None, "text", "{0}", "%s", (1, 2), [1], {}, {"a": 1}, 2.5, Fraction(1, 3), set(), True, b"x", 10 ** 400, nan,
          -inf, Odd("o"), Call("f"), -7, 10 ** 9 + 1, 1e-9]
ix = st.integers(0, 21)


class M(Method):
    def execute(self, in_map):
        return {v: "value" for v in self.outputs}


class Selection(SelectionConstraint):
    def satisfied(self, mapping):
        return True


class Callable(object):
    def __call__(self, *args):
        return True


#: names of methods and constraints
TITLES = ["named", "user", "100%", "%s of %d", "{0} {x} {", "", "é", "%(a)s", "a\nb"]
FUNCTIONS = [lambda *a: True, max, functools.partial(max, 3), Callable(), str.upper, Callable]


@check("C28", "objects", st.tuples(all_names, st.lists(ix, min_size=6, max_size=6), st.lists(st.integers(0, 6), min_size=12,
                                                                                            max_size=12), seeds), quick=700,
       rule="the text of every kind of object over awkward and ordinary names and values, in initial, edited and refused "
            "states; non-trivial: some name is not plain text")
def c28_objects(case, note):
    ns, vals, ixs, seed = case
    note.count(any(not (isinstance(n, str) and n.isalnum()) for n in ns))
    vals = [VALUES[i % len(VALUES)] for i in vals]
    n = lambda i: ns[ixs[i] % len(ns)]
    a, b, c = ns[0], ns[1], ns[2]
    rest = ns[3:]
    # graphs
    with sut("building a graph"):
        g = Graph()
    texts(g, "an empty graph")
    with sut("building a graph"):
        for v in ns:
            g.add_vertex(v)
        g.add_edge(a, b, vals[0])
        g.add_bi_edge(b, c, vals[1])
        g.add_edge(c, c)
        for i, v in enumerate(vals):
            g.add_edge(ns[i % len(ns)], ns[ixs[i + 6] % len(ns)], v)
    mentions(texts(g, "a graph"), ns, "a graph")
    with sut("deriving graphs"):
        mentions(texts(g.reverse(), "a reversed graph"), ns, "a reversed graph")
        mentions(texts(g.subgraph([a, b]), "a subgraph"), [a, b], "a subgraph")
        mentions(texts(g.copy(), "a copy"), ns, "a copy of a graph")
        g.remove_vertex(b)
    mentions(texts(g, "a graph"), [v for v in ns if v != b], "a graph after removing a vertex")
    # methods and method graphs
    mv, mw, anon = MultiVariable("m"), MultiVariable(ns[0]), MultiVariable()
    for m in (mv, mw, anon):
        texts(m, "a multi-valued variable")
    mentions(texts(mw, "a multi-valued variable"), [ns[0]] if ns[0] is not None else [], "a multi-valued variable")
    with sut("building methods"):
        mets = [(AddMethod(a, b, c), [a, b, c]), (SubMethod(a, b, c), [a, b, c]), (AssignMethod(a, b), [a, b]),
                (SetMethod(a, vals[0]), [a]), (M(TITLES[seed % len(TITLES)], ns[:2], ns[2:]), ns), (M(a, [], []), []),
                (SumProdMethod(a, b, mv), [a, b, mv]), (SumProdMethod(mv, anon, mw), [mv, anon, mw])]
    for m, vs in mets:
        mentions(texts(m, "a {}".format(type(m).__name__)), vs, "a {}".format(type(m).__name__))
    for v in vals:
        texts(SetMethod(a, v), "a set method with value {!r}".format(v))
    with sut("building a method graph"):
        mg = MethodGraph()
    texts(mg, "an empty method graph")
    with sut("building a method graph"):
        mg.add_variable(a, 3)
        mg.add_variable(b)
    mentions(texts(mg, "a method graph"), [a, b], "a method graph")
    with sut("building a method graph"):
        add = AddMethod(a, b, c)
        mg.add_method(add)
        mg.set(b, 4)
    mentions(texts(mg, "a method graph"), [a, b, c], "a method graph")
    require(str(add) in str(mg), "the text of a method graph does not mention its method")
    for bad in (AssignMethod(a, c), SetMethod(c, 1)):
        try:
            mg.add_method(bad)
        except (MethodGraphCycleException, MethodGraphDetermineException) as e:
            texts(e, "a refusal")
    mentions(texts(mg, "a method graph"), [a, b, c], "a method graph after refusals")
    with sut("removing"):
        mg.rem_variable(b)
    mentions(texts(mg, "a method graph"), [a, c], "a method graph after a removal")
    # constraints
    with sut("building constraints"):
        cons = [(PlusConstraint(a, b, c), [a, b, c])]
        cons += [(FunctionConstraint(f, ns), ns) for f in FUNCTIONS]
        cons += [(FunctionConstraint(FUNCTIONS[0], ns, name=TITLES[(seed // 7) % len(TITLES)]), ns),
                 (FunctionConstraint(max, []), []), (Selection(TITLES[(seed // 3) % len(TITLES)], ns), ns),
                 (Selection(a, []), [])]
        cons += [(k(a, b, c), [a, b, c]) for k in (NotAcuteConstraint, NotObtuseConstraint, NotClockwiseConstraint,
                                                   NotCounterClockwiseConstraint)]
        cg = ConstraintGraph()
    texts(cg, "an empty constraint graph")
    for con, vs in cons:
        mentions(texts(con, "a {}".format(type(con).__name__)), vs, "a {}".format(type(con).__name__))
        with sut("adding a constraint"):
            cg.add_constraint(con)
    t = texts(cg, "a constraint graph")
    mentions(t, ns, "a constraint graph")
    mentions(t, [con for con, _ in cons], "a constraint graph")
    with sut("removing a variable"):
        cg.rem_variable(a)
        cg.rem_variable(ABSENT[0])
        cg.rem_constraint(cons[0][0])
    mentions(texts(cg, "a constraint graph"), ns[1:], "a constraint graph after a removal")
    # clusters
    with sut("building clusters"):
        cl = [(Rigid(ns), ns), (Rigid([]), []), (Rigid([a]), [a]), (Balloon(ns), ns), (Hedgehog(b, ns), ns)]
    for k, vs in cl:
        for over in (False, True):
            k.overconstrained = over
            mentions(texts(k, "a {}".format(type(k).__name__)), vs, "a {}".format(type(k).__name__))
    # relations
    with sut("building relations"):
        rels = [(Distance(a, b), [a, b]), (Angle(a, b, c), [a, b, c])]
    for r, vs in rels:
        mentions(texts(r, "a {}".format(type(r).__name__)), vs, "a {}".format(type(r).__name__))
    # configurations
    r = Lcg(seed)
    pts = {v: Vector(r.below(100) / 4.0, r.below(100) / 4.0) for v in ns}
    with sut("building configurations"):
        conf = Configuration(pts)
        part = Configuration({a: Vector(1, 2), "zz-more": Vector(3, 4)})
        merged, _ = conf.merge(part)
        confs = [(conf, ns), (Configuration({}), []), (merged, ns + ["zz-more"]), (part.select([a]), [a])]
    for k, vs in confs:
        mentions(texts(k, "a configuration"), vs, "a configuration")


def numbers_in(text):
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", text)]


@check("C28", "wide", st.tuples(seeds, st.integers(10, 150)), quick=12, thorough=300,
       rule="the text of objects of up to 150 variables mentions them all; all non-trivial")
def c28_wide(case, note):
    seed, n = case
    r = Lcg(seed)
    # names that are no part of each other
    ns = ["name%d;" % i for i in range(n)]
    note.count()
    with sut("building a graph"):
        g = Graph()
        for i, v in enumerate(ns):
            g.add_edge(v, ns[r.below(n)], i)
    mentions(texts(g, "a large graph"), ns, "a large graph")
    with sut("building a method graph"):
        mg = MethodGraph()
        for v in ns:
            mg.add_variable(v, r.below(9))
        big = M("user", ns[:n // 2], ns[n // 2:])
        mg.add_method(big)
    mentions(texts(big, "a large method"), ns, "a large method")
    mentions(texts(mg, "a large method graph"), ns, "a large method graph")
    with sut("building constraints"):
        con = FunctionConstraint(FUNCTIONS[0], ns)
        cg = ConstraintGraph()
        cg.add_constraint(con)
        cons = [PlusConstraint(v, ns[r.below(n)], ns[r.below(n)]) for v in ns]
        for c in cons:
            cg.add_constraint(c)
    mentions(texts(con, "a large constraint"), ns, "a large constraint")
    t = texts(cg, "a large constraint graph")
    mentions(t, ns, "a large constraint graph")
    mentions(t, cons, "a large constraint graph")
    with sut("building clusters"):
        cl = [Rigid(ns), Balloon(ns), Hedgehog(ns[r.below(n)], ns)]
    for k in cl:
        mentions(texts(k, "a large cluster"), ns, "a large cluster")
    with sut("building a configuration"):
        conf = Configuration({v: Vector(i, -i) for i, v in enumerate(ns)})
    mentions(texts(conf, "a large configuration"), ns, "a large configuration")
    k = 2 + n // 12
    with sut("building a matrix"):
        m = Matrix([[1000 * i + j for j in range(k)] for i in range(k)])
    mentions(texts(m, "a large matrix"), [x for row in m.elements for x in row], "a large matrix")


element = mix(st.integers(-9, 9), coord(1000), st.integers(-10 ** 20, 10 ** 20), signed(log_uniform(-8, 12)))


@check("C28", "numbers", st.tuples(element, element, st.integers(1, 5), st.integers(1, 5), seeds, st.lists(
    mix(element, st.fractions(-9, 9, max_denominator=7)), min_size=1, max_size=25)), quick=900,
       rule="the text of vectors (to three decimals) and matrices of all shapes; non-trivial: a matrix with several rows "
            "and columns")
def c28_numbers(case, note):
    x, y, r, c, seed, pool = case
    note.count(r > 1 and c > 1)
    with sut("building"):
        v = Vector(x, y)
        m = Matrix([[pool[(i * c + j) % len(pool)] for j in range(c)] for i in range(r)])
    for what, obj, want in (("a vector", v, [v.x, v.y]), ("the transpose of a vector", v.transpose(), [v.x, v.y])):
        t = texts(obj, what)
        got = numbers_in(t)
        require(len(got) >= 2 and all(any(abs(g - w) <= 6e-4 + 1e-12 * abs(w) for g in got) for w in want),
                "the text of {} with {!r} is {!r}", what, want, t)
        g2 = numbers_in(repr(obj))
        require(all(any(abs(g - w) <= 6e-4 + 1e-12 * abs(w) for g in g2) for w in want), "repr of {} is {!r}", what,
                repr(obj))
    t = texts(m, "a matrix")
    mentions(t, [e for row in m.elements for e in row], "a matrix")
    before = [list(row) for row in m.elements]
    with sut("transposing and rounding"):
        texts(m.transpose(), "a transposed matrix")
        texts(Matrix.identity(r), "an identity")
    require(m.elements == before and (v.x, v.y) == (float(x), float(y)), "printing changed the object")


# ---------------------------------------------------------------- logging

class Strict(logging.Handler):
    """Formats every record, and lets errors through"""

    def __init__(self):
        super(Strict, self).__init__(0)
        self.n = 0

    def emit(self, record):
        self.n += 1
        self.format(record)


def logged(fn):
    """Runs with all logging on; returns the result and the number of records"""
    root = logging.getLogger()
    h = Strict()
    touched = [root] + [logging.getLogger(n) for n in list(logging.Logger.manager.loggerDict)]
    saved = [(l, l.level, l.disabled, l.propagate) for l in touched]
    try:
        root.addHandler(h)
        for l in touched:
            l.setLevel(1)
        return fn(), h.n
    finally:
        root.removeHandler(h)
        for l, level, disabled, propagate in saved:
            l.setLevel(level)


def p2(v):
    return None if v is None else (v.x, v.y)


def plain(x):
    """Results as comparable data"""
    if isinstance(x, Vector):
        return ("v", x.x, x.y)
    if isinstance(x, Matrix):
        return ("m", tuple(map(tuple, x.elements)))
    if isinstance(x, Configuration):
        return ("c", sorted((repr(k), plain(x.get(k))) for k in x.vars()), x.underconstrained)
    if isinstance(x, (Rigid, Balloon, Hedgehog)):
        return (type(x).__name__, frozenset(x.vars), getattr(x, "c_var", None))
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    return x


def geometry_program(ns, pts, r1, r2):
    p, q, s, t = [Vector(*x) for x in pts]
    g = geometry
    out = [g.cc_int(p, r1, q, r2), g.cc_int(p, r1, p, r2), g.angle_3p(p, q, s), g.is_clockwise(p, q, s),
           g.is_acute(p, q, s), g.is_obtuse(p, q, s), g.is_flat(p, q, s), g.distance_2p(p, q)]
    if t.length > 0.01:
        out += [g.cl_int(p, r1, q, t), g.cr_int(p, r1, q, t)]
    if s.length > 0.01 and t.length > 0.01:
        out += [g.ll_int(p, s, q, t), g.lr_int(p, s, q, t), g.rr_int(p, s, q, t), g.rr_int(p, s, q, s), g.ll_int(p, t, q, t)]
    f = [g.make_hcs(p, q), g.make_hcs_scaled(p, q), g.make_hcs(s, t)]
    if f[0] is not None and f[2] is not None:
        out.append(g.cs_transform_matrix(f[0], f[2]))
    return plain(out + f)


def configuration_program(ns, pts):
    a = Configuration({v: Vector(*p) for v, p in zip(ns, pts)})
    b = Configuration({v: Vector(p[0] + 1, p[1] - 2) for v, p in zip(ns[1:], pts[1:])})
    c = Configuration({"zz-other": Vector(0, 0)})
    out = []
    for x in (a, b, c):
        for y in (a, b, c):
            out += [x.merge(y), x == y, x.add(y)]
    return plain(out)


def cluster_program(ns, k):
    cl = [Rigid(ns), Rigid(ns[:2]), Rigid(ns[-1:]), Balloon(ns), Balloon(ns[:3]), Hedgehog(ns[k % len(ns)], ns),
          Hedgehog(ns[0], ns[:3]), Rigid(["zz-other"])]
    out = []
    for x in cl:
        for y in cl:
            out += [plain(x.intersection(y)), len(x.common_constraints(y))]
    return out


def graph_program(ns, vals):
    mg = MethodGraph()
    out = []
    for v, x in zip(ns, vals):
        mg.add_variable(v, x)
    a, b, c = ns[:3]
    for m in (AssignMethod(("out", 1), a), SetMethod(("out", 2), vals[0]), SumProdMethod("x", "x", MultiVariable("m"))):
        mg.add_method(m)
    for m in (AssignMethod(a, ("out", 1)), SetMethod(("out", 2), 5)):
        try:
            mg.add_method(m)
        except (MethodGraphCycleException, MethodGraphDetermineException) as e:
            out.append(type(e).__name__)
    mg.set(a, vals[1], prop=False)
    mg.propagate()
    mg.set(b, vals[2])
    out += [repr(mg.get(v)) for v in ns + [("out", 1), ("out", 2)]]
    mg.rem_variable(a)
    out.append(len(list(mg.variables())))
    cg = ConstraintGraph()
    con = PlusConstraint(a, b, c)
    cg.add_constraint(con)
    cg.rem_variable(ABSENT[0])
    cg.rem_variable(("a", 1))
    cg.rem_constraint(PlusConstraint(a, b, c))
    cg.rem_variable(a)
    cg.rem_constraint(con)
    cg.rem_variable(a)
    out.append(sorted(map(repr, cg.variables())))
    return out


@check("C28", "logging", st.tuples(all_names, st.lists(point(100), min_size=7, max_size=7), st.floats(0, 50), st.floats(0, 50),
                                   st.lists(st.integers(0, len(VALUES) - 1), min_size=7, max_size=7)), quick=300,
       rule="programs over geometry, configurations, clusters, method graphs and constraint graphs, with and without "
            "debug logging into a handler that formats every record and does not swallow errors; non-trivial: at least "
            "five records")
def c28_logging(case, note):
    ns, pts, r1, r2, vals = case
    vals = [VALUES[i] for i in vals]
    programs = [("geometry", lambda: geometry_program(ns, pts[:4], r1, r2)),
                ("configurations", lambda: configuration_program(ns, pts)),
                ("clusters", lambda: cluster_program(ns, len(vals[0]) if isinstance(vals[0], str) else 1)),
                ("graphs", lambda: graph_program(ns, vals))]
    total = 0
    for name, fn in programs:
        with sut(name + " without logging"):
            quiet = fn()
        with sut(name + " with debug logging"):
            loud, n = logged(fn)
        total += n
        require(quiet == loud, "{} give {!r} without and {!r} with debug logging", name, quiet, loud)
        note.label("records from " + name, n)
    note.count(total >= 5)


@check("C28", "histories", st.tuples(all_names, seeds, st.integers(5, 60), st.booleans()), quick=60, thorough=2500,
       rule="histories of up to 60 deferred and immediate operations on a method graph, run once without and once with debug "
            "logging, and the text and values of the two graphs compared after each; non-trivial: a change was pending "
            "while something was logged")
def c28_histories(case, note):
    ns, seed, n, valid = case
    kinds = ["met"] * 4 + ["set"] * 6 + ["flip", "exec", "again", "remm", "remv", "readd", "bad", "var", "prop"]
    ops = long_ops(Lcg(seed), n, kinds, len(ns))
    a, b = World(list(ns)), World(list(ns))
    quiet = type(note)()
    pending = 0
    for op in ops:
        step(a, op, quiet, valid, True)
        _, records = logged(lambda: step(b, op, quiet, valid, True))
        pending = 0 if op[0] == "prop" else pending + (op[0] in ("set", "met") and not op[-1])
        note.count(pending > 0 and records > 0)
        va = [(v, a.value(v)) for v in a.vars()]
        vb = [(v, b.value(v)) for v in b.vars()]
        require(len(va) == len(vb) and all(v == w and same(x, y) for (v, x), (w, y) in zip(va, vb)), "after {!r} the values are {!r} "
                "without and {!r} with debug logging", op, va, vb)
    mentions(texts(b.mg, "a method graph"), b.vars(), "a method graph after a history")
