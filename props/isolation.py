"""C29 independence of separate objects under interleaving"""

import concurrent.futures
import math
import sys


from hypothesis import strategies as st

from vkit import core
from vkit.core import check, require
from vkit.gen import NAMES, Lcg, alias, mix, seeds, shuffled
from solver.geometric.cluster import Balloon, Hedgehog, Rigid
from solver.geometric.configuration import Configuration
from solver.geometric.constraint import (ConstraintGraph, FunctionConstraint, NotAcuteConstraint, NotClockwiseConstraint,
                                         NotCounterClockwiseConstraint, NotObtuseConstraint, PlusConstraint)
from solver.geometric.relation import Angle, Distance
from solver.geometry import (Matrix, Scalar, Vector, angle_3p, cc_int, cl_int, cr_int, cs_transform_matrix, distance_2p,
                             is_acute, is_clockwise, is_counterclockwise, is_flat, is_obtuse, ll_int, lr_int, make_hcs,
                             make_hcs_scaled, rr_int)
from solver.graph import Graph
from solver.method import (AddMethod, AssignMethod, Method, MethodGraph, MultiMethod, MultiVariable, SetMethod,
                           SubMethod, SumProdMethod)

# ---------------------------------------------------------------- answers as plain data


def plain(x, key=repr):
    """An answer as plain data: numbers, texts and tuples; names are given as their keys"""
    def inner(e):
        return plain(e, key)

    def keys(vs):
        return ("set",) + tuple(sorted(map(key, vs)))
    if isinstance(x, Vector):
        return ("vector", x.x, x.y)
    if isinstance(x, Matrix):
        return ("matrix",) + tuple(tuple(float(e) for e in row) for row in x.elements)
    if isinstance(x, Configuration):
        return ("configuration", x.underconstrained) + tuple(sorted((key(v), inner(x.get(v))) for v in x.vars()))
    if isinstance(x, (list, tuple)):
        return tuple(inner(e) for e in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((inner(e) for e in x), key=repr))
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted(((key(k), inner(v)) for k, v in x.items()), key=repr))
    if isinstance(x, Hedgehog):
        return ("hedgehog", key(x.c_var), keys(x.x_vars))
    if isinstance(x, (Rigid, Balloon)):
        return (type(x).__name__, keys(x.vars))
    if isinstance(x, Angle):
        return ("angle", key(x.points[1]), keys(x.points))
    if isinstance(x, Distance):
        return ("distance", keys(x.points))
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)


def same(a, b):
    """Equal answers (numbers up to the last few digits)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12) or (a != a and b != b)
    return type(a) == type(b) and a == b


# ---------------------------------------------------------------- the objects that two activities may share

class Weighted(Method):
    """Its output is a weighted sum of its inputs"""

    def execute(self, in_map):
        return {o: sum((k + 2) * in_map[i] for k, i in enumerate(self.inputs)) + j for j, o in enumerate(self.outputs)}


class Pairs(MultiMethod):
    def multi_execute(self, in_map):
        return [tuple(in_map[i] for i in self.inputs)]


class Within(object):
    """A user's predicate that uses the library itself"""

    def __init__(self, limit):
        self.limit = limit

    def __call__(self, p, q):
        g = Graph()
        g.add_edge("p", "q", distance_2p(p, q))
        return bool(g.copy().get("p", "q") < self.limit)


class World(object):
    """Objects that are only read, all determined by one number"""

    def __init__(self, seed, names=None, odd=8):
        r = self.r = Lcg(seed)
        if names is None:
            ns = shuffled(r, ["a", "b", "c", "d", "e", "f", "g"]) if r.below(2) else shuffled(r, NAMES)[:7]
            self.texts = True
        else:
            ns = names
            self.texts = False
        self.names = ns
        number = {n: "name {}".format(i) for i, n in enumerate(ns)}

        def key(v):
            return number[v] if not isinstance(v, MultiVariable) and v in number else repr(v)
        self.key = repr if names is None else key
        self.points = [Vector(self.coord(), self.coord()) for i in range(7)]
        self.configs = []
        for i in range(5):
            sub = shuffled(r, range(7))[:r.below(6)]
            turn, dx, dy = r.below(8) * 45.0, self.coord(), self.coord()
            self.configs.append(Configuration(
                {ns[k]: (self.points[k] if not odd or r.below(odd) else Vector(self.coord(), self.coord())).rotate(turn)
                 + Vector(dx, dy) for k in sub}))
        self.clusters = []
        for i in range(6):
            sub = shuffled(r, ns)[:3 + r.below(4)]
            self.clusters.append([lambda: Rigid(sub), lambda: Hedgehog(sub[0], sub[1:]), lambda: Balloon(sub)]
                                 [r.below(3)]())
        self.relations = []
        for i in range(8):
            sub = shuffled(r, ns)[:3]
            self.relations.append(Distance(*sub[:2]) if r.below(2) else Angle(*sub))
        self.constraints = []
        for i in range(6):
            sub = shuffled(r, ns)[:3]
            self.constraints.append(
                [lambda: NotClockwiseConstraint(*sub), lambda: NotCounterClockwiseConstraint(*sub),
                 lambda: NotObtuseConstraint(*sub), lambda: NotAcuteConstraint(*sub),
                 lambda: FunctionConstraint(Within(1.0 + r.below(6)), sub[:2])][r.below(5)]())
        self.matrices = [Matrix([[self.coord() + 9.0 * (i == j) for j in range(2)] for i in range(2)]) for k in range(3)]
        self.mvars = [MultiVariable("m%d" % i) for i in range(3)]
        # methods that can be in several graphs at once (acyclic in any selection)
        self.methods = [AddMethod(ns[0], ns[1], ns[2]), SubMethod(ns[2], ns[1], ns[3]), AssignMethod(ns[4], ns[3]),
                        Weighted("weighted", [ns[0], ns[4]], [ns[5], ns[6]]), SumProdMethod(ns[0], ns[1], self.mvars[0]),
                        Pairs("pairs", [self.mvars[0], ns[1]], [self.mvars[1]]),
                        Pairs("pairs", [self.mvars[0], self.mvars[1]], [self.mvars[2]])]

    def coord(self):
        k = self.r.below(3)
        return float(self.r.below(9)) - 4.0 if k else self.r.unit() * 10.0 - 5.0


# ---------------------------------------------------------------- activities: functions of the shared objects

def circles(w, r):
    p = [w.points[r.below(7)] for i in range(4)]
    rad = [0.5 + r.below(8), 0.5 + 5 * r.unit()]
    u, v = p[1] - p[0], p[3] - p[2]
    u, v = (x if x.length > 1e-3 else Vector(1, 2 * i) for i, x in enumerate((u, v)))
    # directions of any length
    u, v = u * 10.0 ** (r.below(9) - 4), v * 10.0 ** (r.below(9) - 4)
    return [lambda: cc_int(p[0], rad[0], p[1], rad[1]), lambda: cl_int(p[0], rad[0], p[1], v),
            lambda: cr_int(p[0], rad[1], p[1], v), lambda: ll_int(p[0], u, p[2], v), lambda: lr_int(p[0], u, p[2], v),
            lambda: rr_int(p[0], u, p[2], v)][r.below(6)]


def measures(w, r):
    p = [w.points[r.below(7)] for i in range(3)]
    f = [angle_3p, is_clockwise, is_counterclockwise, is_flat, is_acute, is_obtuse][r.below(6)]
    if r.below(6) == 0:
        return lambda: (distance_2p(p[0], p[1]), p[2].azimuth, p[2].length)
    return lambda: f(*p)


def frames(w, r):
    p = [w.points[r.below(7)] for i in range(4)]
    f = [make_hcs, make_hcs_scaled][r.below(2)]

    def go():
        a, b = f(p[0], p[1]), f(p[2], p[3])
        return (a, b, cs_transform_matrix(a, b) if a and b else None)
    return go


def algebra(w, r):
    a, b = w.matrices[r.below(3)], w.matrices[r.below(3)]
    p, q = w.points[r.below(7)], w.points[r.below(7)]
    k = r.below(5)
    # a little less and a little more than the tolerance, and far more
    near = [10.0 ** (e - 10) * (1.0 + r.unit()) for e in range(12)]

    def rounded():
        c = Matrix([list(row) for row in a.elements])
        c.round(2)
        return c
    return [lambda: (a * b, a.transpose(), Matrix.identity(2)), lambda: (a.inverse(), b.solve(a), a.solve(Matrix(p))),
            rounded, lambda: (p + q, p - q, p * q, -p, p.rotate(30.0), p.dot(q), p[0], p[1]),
            lambda: (p == q, p < q, p > q, p.tol_eq(q), p.tol_eq(q, 0.0, 1.0), Scalar.tol_eq(p.x, q.x, rel_tol=0.5),
                     Scalar.tol_lt(p.x, q.x), [Scalar.tol_eq(p.x, p.x + d) for d in near], p.is_positive(), p.is_negative(), str(p))][k]


def configurations(w, r):
    a, b = w.configs[r.below(5)], w.configs[r.below(5)]
    t = make_hcs(Vector(r.unit(), 0), Vector(1, 2 + r.unit()))
    k = r.below(8)
    some = shuffled(r, list(a.vars()))[:r.below(4)]
    if k < 3:
        return lambda: a.merge(b)
    return [lambda: (a == b, b == a, a == b and hash(a) == hash(b)), lambda: a.add(b), lambda: a.transform(t), lambda: a.select(some),
            lambda: (a.copy(), a.transform(t) == a, sorted(map(w.key, a.vars())))][k - 3]


def clusters(w, r):
    a, b = w.clusters[r.below(6)], w.clusters[r.below(6)]
    return [lambda: (a.intersection(b), b.intersection(a)), lambda: (a.common_constraints(b), b.common_distances(a)),
            lambda: (a.n_constraints(), a.n_angles(), a.n_distances(), set(map(w.key, a.var_list())))][r.below(3)]


def relations(w, r):
    rs = [w.relations[r.below(8)] for i in range(4)]
    return lambda: ([x == y for x in rs for y in rs], len(set(rs)), [str(x) for x in rs if w.texts])


def selections(w, r):
    cs = [w.constraints[r.below(6)] for i in range(2)]
    mapping = dict(zip(w.names, [w.points[r.below(7)] for n in w.names]))
    plus = PlusConstraint(*w.names[:3])
    numbers = dict(zip(w.names, [r.below(3) for n in w.names]))
    return lambda: ([c.satisfied(mapping) for c in cs], plus.satisfied(numbers), [c.variables() == c.variables() for c in cs])


def graphs(w, r):
    ops = [(r.below(9), w.names[r.below(7)], w.names[r.below(7)], r.below(5)) for i in range(2 + r.below(8))]

    def go():
        g = Graph()
        for k, v, u, x in ops:
            if k < 4:
                g.add_edge(v, u, x)
            elif k == 4:
                g.set(v, u, x)
            elif k == 5:
                g.add_bi_edge(v, u, x)
            elif k == 6 and g.has_vertex(v):
                g.remove_vertex(v)
            elif k == 7 and g.has_edge(v, u):
                g.remove_edge(v, u)
            elif k == 8:
                g = [g.copy, g.reverse, lambda: g.subgraph(w.names[:5]), lambda: Graph(g)][x % 4]()
        out = [sorted(((w.key(a), w.key(b), g.get(a, b)) for a, b in g.edges())), sorted(map(w.key, g.vertices()))]
        for v in g.vertices():
            out.append((w.key(v), sorted(map(w.key, g.connected(v))), sorted(map(w.key, g.connected_via_outgoing(v))),
                        sorted(map(w.key, g.adjacent_vertices(v)))))
            for u in g.vertices():
                out.append(len(g.path(v, u)) > 0)
        out.append(sorted(sorted(map(w.key, s)) for s in g.connected_subsets()))
        return out
    return go


def constraint_graphs(w, r):
    ops = [(r.below(6), r.below(6), w.names[r.below(7)]) for i in range(2 + r.below(8))]

    def go():
        g = ConstraintGraph()
        for k, i, v in ops:
            if k < 4:
                g.add_constraint(w.constraints[i])
            elif k == 4 and v in g.variables():
                g.rem_variable(v)
            elif k == 5 and w.constraints[i] in g.constraints():
                g.rem_constraint(w.constraints[i])
        ident = {id(c): i for i, c in reversed(list(enumerate(w.constraints)))}

        def ids(cs):
            return sorted(ident[id(c)] for c in cs)
        return [ids(g.constraints()), sorted(map(w.key, g.variables())), [ids(g.get_constraints_on(v)) for v in w.names],
                [ids(g.get_constraints_on_all([v, u])) for v in w.names for u in w.names[:3]],
                [ids(g.get_constraints_on_any([v, u])) for v in w.names[:3] for u in w.names]]
    return go


def method_graphs(w, r):
    ops = [(r.below(10), r.below(7), r.below(9) - 4, r.below(3) > 0) for i in range(3 + r.below(8))]

    def go():
        g = MethodGraph()
        for n in w.names[:2]:
            g.add_variable(n, ops[0][2])
        for k, i, x, prop in ops:
            v = w.names[i]
            if k < 4:
                g.add_method(w.methods[i], prop)
            elif k < 7:
                source = w.names[i % 2]
                if source in g.variables():
                    g.set(source, x, prop)
            elif k == 7 and w.methods[i] in g.methods():
                g.rem_method(w.methods[i])
            elif k == 8 and x > 2 and v in g.variables():
                g.rem_variable(v)
            elif k == 9:
                if x > 3:
                    g.clear()
                elif w.methods[i] in g.methods():
                    g.execute(w.methods[i])
        g.propagate()
        ident = {id(m): i for i, m in enumerate(w.methods)}
        return [sorted((w.key(v), plain(g.get(v), w.key)) for v in g.variables()), sorted(ident[id(m)] for m in g.methods())]
    return go


def methods(w, r):
    a, b = r.below(9), r.below(9)
    multi = {w.names[0]: a, w.names[1]: b, w.mvars[0]: [a, b, a + b], w.mvars[1]: (b, a), w.mvars[2]: set(),
             w.names[2]: r.below(9), w.names[3]: 1, w.names[4]: r.below(9), w.names[5]: None, w.names[6]: None}
    ms = [w.methods[r.below(7)] for i in range(2)] + [SetMethod(w.names[0], a)]
    return lambda: [{w.key(k): plain(sorted(v, key=repr)) if isinstance(v, (set, list)) else v
                     for k, v in m.execute(dict(multi)).items()} for m in ms]


KINDS = [circles, measures, frames, algebra, configurations, clusters, relations, selections, graphs, constraint_graphs,
         method_graphs, methods]


def activity(w, kind, seed):
    """A function to be called, which gives its answer, or its refusal, as plain data"""
    go = KINDS[kind % len(KINDS)](w, Lcg(seed))

    def act():
        try:
            return plain(go(), w.key)
        except core.Violation:
            raise
        except Exception as e:
            return ("raised", type(e).__name__)
    return act


# ---------------------------------------------------------------- interleaving

_other = []


def elsewhere(f):
    """Runs f in another thread"""
    if not _other:
        _other.append(concurrent.futures.ThreadPoolExecutor(1))
    return _other[0].submit(f)


class Interrupted(object):
    """Runs an activity and, at chosen lines of the library's code, others from beginning to end in another thread: one
    of the schedules that two threads have"""

    PATIENCE = 2.0

    def __init__(self, others, first, every, most=24):
        self.others, self.first, self.every, self.most = others, first, every, most
        self.lines = 0
        self.runs = []
        self.pending = None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.REPO + "/"):
            return None
        return self.at

    def at(self, frame, event, arg):
        if event == "line":
            k = self.lines
            self.lines += 1
            if self.others and k >= self.first and (k - self.first) % self.every == 0 and len(self.runs) < self.most \
                    and self.pending is None:
                i = len(self.runs) % len(self.others)
                f = elsewhere(self.others[i])
                try:
                    self.runs.append((i, k, f.result(self.PATIENCE)))
                except concurrent.futures.TimeoutError:
                    # it waits for the first activity to go on
                    self.pending = (i, k, f)
        return self.at

    def run(self, act):
        sys.settrace(self.trace)
        try:
            answer = act()
        finally:
            sys.settrace(None)
        if self.pending is not None:
            i, k, f = self.pending
            self.runs.append((i, k, f.result(60)))
        return answer


#: kinds that share the objects they use more often go together
kind = mix(st.integers(0, len(KINDS) - 1), st.integers(0, len(KINDS) - 1))
case = st.tuples(seeds, st.tuples(kind, seeds), st.lists(st.tuples(kind, seeds), min_size=1, max_size=3), st.booleans(),
                 st.integers(0, 60), mix(st.just(10 ** 6), st.integers(1, 12), st.integers(1, 4)))


@check("C29", "interleaved", case, quick=900,
       rule="an activity (geometry, configurations, clusters, constraints, graphs and method graphs of its own) that is "
            "interrupted at chosen lines by others, run from beginning to end in another thread, on the same read-only "
            "objects; every activity must give what it gives alone; non-trivial: the first was interrupted")
def interleaved(case, note):
    seed, (k0, s0), rest, alike, first, every = case
    if alike:
        rest = [(k0, s) for k, s in rest]

    def activities(w):
        return activity(w, k0, s0), [activity(w, k, s) for k, s in rest]

    # what each gives alone, on objects of its own
    act, others = activities(World(seed))
    count = Interrupted([], 0, 1)
    alone = count.run(act)
    if not count.lines:
        return
    alone_others = [activity(World(seed), k, s)() for k, s in rest]

    act, others = activities(World(seed))
    run = Interrupted(others, first % count.lines, every)
    answer = run.run(act)
    note.label(KINDS[k0 % len(KINDS)].__name__)
    note.label("raised", isinstance(alone, tuple) and alone[:1] == ("raised",))
    note.label("waited", run.pending is not None)
    note.count(len(run.runs) > 0)
    what = KINDS[k0 % len(KINDS)].__name__
    for i, k, x in run.runs:
        require(same(x, alone_others[i]), "{} during {} (at its line event {}) gave {!r}, and alone {!r}",
                KINDS[rest[i][0] % len(KINDS)].__name__, what, k, x, alone_others[i])
    require(same(answer, alone), "{}, interrupted {} times by {}, gave {!r}, and alone {!r}", what, len(run.runs),
            [KINDS[k % len(KINDS)].__name__ for k, s in rest], answer, alone)
    # and again afterwards
    again = act()
    require(same(again, alone), "{}, again after it was interrupted, gave {!r}, and alone {!r}", what, again, alone)


#: the kinds of activity on objects that both hold: configurations, clusters, relations, constraints
held = mix(st.integers(4, 7), st.just(5))
held_case = st.tuples(seeds, held, seeds, st.lists(seeds, min_size=1, max_size=2), st.integers(0, 60), st.integers(1, 3)).map(
    lambda t: (t[0], (t[1], t[2]), [(t[1], s) for s in t[3]], True, t[4], t[5]))


@check("C29", "shared", held_case, quick=1500,
       rule="two activities of the same kind on the same configurations, clusters, relations or constraints, one interrupted "
            "at every line, or every second or third, by the other; non-trivial: the first was interrupted")
def shared(case, note):
    interleaved(case, note)


class Inner(Method):
    """A method of a user that uses the library for something else while it is executed"""

    def __init__(self, inner, name, inputs, outputs):
        super(Inner, self).__init__(name, inputs, outputs)
        self.inner = inner
        self.answers = []

    def execute(self, in_map):
        self.answers.append(self.inner())
        return {o: sum(in_map[i] for i in self.inputs) + k for k, o in enumerate(self.outputs)}


class InnerMulti(MultiMethod):
    def __init__(self, inner, name, inputs, outputs):
        super(InnerMulti, self).__init__(name, inputs, outputs)
        self.inner = inner
        self.answers = []

    def multi_execute(self, in_map):
        self.answers.append(self.inner())
        return [tuple(in_map[i] for i in self.inputs)]


class Watch(object):
    def __init__(self, inner):
        self.inner = inner
        self.answers = []

    def __call__(self, p, q, s):
        self.answers.append(self.inner())
        return is_clockwise(p, q, s)


@check("C29", "nested", st.tuples(seeds, kind, seeds, st.integers(0, 2), st.lists(st.integers(-5, 5), min_size=3,
                                                                                 max_size=6)), quick=500,
       rule="methods, multi-valued methods and predicates of the user that use the library for something else (another "
            "graph, say) when they are called; non-trivial: they were called")
def nested(case, note):
    seed, k, s, host, xs = case
    w = World(seed)
    inner = activity(w, k, s)
    alone = activity(World(seed), k, s)()
    what = KINDS[k % len(KINDS)].__name__
    if host == 0:
        g = MethodGraph()
        ms = [Inner(inner, "one", ["a", "b"], ["c", "d"]), Inner(inner, "two", ["c", "a"], ["e"]),
              Inner(inner, "three", ["d", "e"], ["f"])]
        g.add_variable("a", 1)
        g.add_variable("b", 2)
        for m in ms:
            g.add_method(m)
        for i, x in enumerate(xs):
            g.set("ab"[i % 2], x)
            a, b = g.get("a"), g.get("b")
            c, d = a + b, a + b + 1
            got = [g.get(v) for v in "cdef"]
            require(got == [c, d, c + a, d + c + a], "a method graph whose methods use {} has {} after {} = {}, {}", what,
                    got, "ab"[i % 2], a, b)
    elif host == 1:
        m, n = MultiVariable("m"), MultiVariable("n")
        ms = [InnerMulti(inner, "pairs", [m, "a"], [n])]
        g = MethodGraph()
        g.add_variable("a", 0)
        g.add_variable(m, set(xs))
        g.add_method(ms[0])
        for x in xs:
            g.set("a", x)
            want = {(v, x) for v in xs}
            require(set(g.get(n)) == want, "a multi-valued method that uses {} gave {}, not {}", what, g.get(n), want)
    else:
        ms = [Watch(inner)]
        c = FunctionConstraint(ms[0], [0, 1, 2])
        p = [Vector(x, i * i) for i, x in enumerate(xs)]
        for i in range(len(p)):
            t = [p[i], p[i - 1], p[i - 2]]
            got, want = c.satisfied(dict(enumerate(t))), is_clockwise(*t)
            require(got is want, "a constraint whose function uses {} answers {}, not {}", what, got, want)
    answers = [x for m in ms for x in m.answers]
    note.label(what)
    note.count(len(answers) > 0)
    for x in answers:
        require(same(x, alone), "{} inside of user code gave {!r}, and alone {!r}", what, x, alone)


class Failing(Method):
    """Fails on odd inputs"""

    def execute(self, in_map):
        x = sum(in_map[i] for i in self.inputs)
        if x % 2:
            raise ArithmeticError("odd")
        return {o: x + k for k, o in enumerate(self.outputs)}


class FailingMulti(MultiMethod):
    def multi_execute(self, in_map):
        x = sum(in_map[i] for i in self.inputs)
        if x % 2:
            raise ArithmeticError("odd")
        return [x]


def failing(*args):
    raise ArithmeticError("odd")


@check("C29", "failures", st.tuples(seeds, st.lists(st.tuples(kind, seeds), min_size=1, max_size=4),
                                    st.lists(st.tuples(st.integers(0, 4), st.integers(-5, 5), st.booleans()),
                                             min_size=2, max_size=8)), quick=500,
       rule="methods and predicates of the user that fail in the middle of an operation, and arguments that are refused; "
            "afterwards every other object, and the same graph once all its sources are set again, works; non-trivial: "
            "something failed")
def failures(case, note):
    seed, rest, ops = case
    alone = [activity(World(seed), k, s)() for k, s in rest]
    w = World(seed)
    acts = [activity(w, k, s) for k, s in rest]
    g = MethodGraph()
    for v in "ab":
        g.add_variable(v, 0)
    m = MultiVariable("m")
    n = 0
    ms = [Failing("half", ["a"], ["c", "d"]), Failing("both", ["c", "b"], ["e"]), Failing("last", ["e", "c"], ["f"]),
          FailingMulti("multi", ["e", "b"], [m])]
    if seed % 3:
        # all of them from the beginning
        for mm in ms:
            g.add_method(mm)
    for k, x, prop in ops:
        try:
            if k < 2:
                g.set("ab"[k], x, prop)
            elif k == 2:
                g.add_method(ms[x % 4], prop)
            elif k == 3:
                FunctionConstraint(failing, ["a"]).satisfied({"a": x})
            else:
                [lambda: g.set("absent", x), lambda: g.rem_variable("absent"), lambda: Balloon([1, 2]),
                 lambda: Graph().remove_edge(1, 2), lambda: Matrix([[1, 2]]).inverse(),
                 lambda: Matrix([[1.0, 2.0], [2.0, 4.0]]).inverse(), lambda: w.configs[0].select(["absent"])][x % 7]()
        except core.Violation:
            raise
        except Exception as e:
            n += 1
            note.label("{} {}".format(k, type(e).__name__))
        for (kk, s), act, want in zip(rest, acts, alone):
            got = act()
            require(same(got, want), "{} after a failure in another object gave {!r}, and before {!r}",
                    KINDS[kk % len(KINDS)].__name__, got, want)
    note.count(n > 0)
    # values that no method refuses, for all sources
    for v, x in (("a", 4), ("b", 6), ("a", 2), ("b", 8)):
        try:
            g.set(v, x)
        except ArithmeticError:
            # the other source may still have a value that is refused
            require((v, x) in (("a", 4), ("b", 6)), "{} = {} was refused, with {}", v, x,
                    {str(v): g.get(v) for v in g.variables()})
    for mm in ms:
        g.add_method(mm)
    got = {str(v): g.get(v) for v in g.variables() if v != m}
    want = {"a": 2, "b": 8, "c": 2, "d": 3, "e": 10, "f": 12}
    require(got == want and set(g.get(m)) == {18}, "after failures, with all sources set again, the values are {} and {}",
            got, g.get(m))
