"""C25-C27 clusters and relations"""

import itertools
import math
import numbers

from hypothesis import strategies as st

from vkit.core import check, refused, require, sut
from vkit.gen import Lcg, alias, many_names, pick, mix, names, seeds, sized_names, shuffled
from solver.geometric.cluster import Balloon, Cluster, Hedgehog, Rigid
from solver.geometric.relation import Angle, Distance

KINDS = {"rigid": Rigid, "balloon": Balloon, "hedgehog": Hedgehog}




class OwnRigid(Rigid):
    """Rigid like any other"""

    pretty_name = "Bar"


class OwnBalloon(Balloon):
    """A balloon like any other"""


class OwnHedgehog(Hedgehog):
    """A hedgehog like any other"""

    pretty_name = "Balloon"


OWN = {"rigid": OwnRigid, "balloon": OwnBalloon, "hedgehog": OwnHedgehog}


class Spec(object):
    """What a cluster is: its kind, its centre and its other variables"""

    own = False         # whether to build it as an instance of a derived class

    def __init__(self, kind, vs, centre=None):
        self.kind = kind
        self.centre = centre
        self.xs = [v for v in vs if kind != "hedgehog" or v != centre]
        self.vars = ([centre] if kind == "hedgehog" else []) + self.xs

    def build(self, form=list):
        kinds = OWN if self.own else KINDS
        given = form(self.xs if self.kind == "hedgehog" else self.vars)
        with sut("constructing a {} of {!r}".format(self.kind, self.vars)):
            c = kinds[self.kind](self.centre, given) if self.kind == "hedgehog" else kinds[self.kind](given)
        # what it was built from is the caller's
        if isinstance(given, (list, set)):
            (given.append if isinstance(given, list) else given.add)("zz-later")
            given.remove(next(iter(given)))
        return c

    def distances(self):
        return {frozenset(p) for p in itertools.combinations(self.vars, 2)} if self.kind == "rigid" else set()

    def angles(self):
        if self.kind == "hedgehog":
            return {(self.centre, frozenset(p)) for p in itertools.combinations(self.xs, 2)}
        return {(m, frozenset(p)) for m in self.vars for p in itertools.combinations([v for v in self.vars if v != m], 2)}

    def counts(self):
        n, x = len(self.vars), len(self.xs)
        d = math.comb(n, 2) if self.kind == "rigid" else 0
        a = math.comb(x, 2) if self.kind == "hedgehog" else 3 * math.comb(n, 3)
        return d, a

    def __repr__(self):
        return "{}({})".format(self.kind, ", ".join(map(repr, self.vars)))


def meet(a, b):
    """The intersection, None if there is none"""
    if b.kind == "hedgehog" and a.kind != "hedgehog":
        a, b = b, a
    shared = [v for v in a.vars if v in b.vars]
    if a.kind == "hedgehog":
        if b.kind == "hedgehog":
            xs = [v for v in a.xs if v in b.xs]
            ok = a.centre == b.centre
        else:
            xs = [v for v in a.xs if v in b.vars]
            ok = a.centre in b.vars
        return Spec("hedgehog", xs, a.centre) if ok and len(xs) >= 2 else None
    if a.kind == "rigid" and b.kind == "rigid":
        return Spec("rigid", shared) if len(shared) >= 2 else None
    return Spec("balloon", shared) if len(shared) >= 3 else None


def is_cluster(c, spec, what):
    require([k for k in KINDS if isinstance(c, KINDS[k])] == [spec.kind], "{} is {}, expected {!r}", what, type(c).__name__, spec)
    with sut("reading " + what):
        vs, listed = set(c.vars), list(c.var_list())
        centre = c.c_var if spec.kind == "hedgehog" else None
        xs = set(c.x_vars) if spec.kind == "hedgehog" else None
    require(vs == set(spec.vars), "{} has the variables {!r}, expected {!r}", what, vs, spec)
    require(len(listed) == len(vs) and set(listed) == vs, "{} lists its variables as {!r}, expected {!r}", what, listed, spec)
    require(not c.overconstrained, "{} is flagged overconstrained", what)
    if spec.kind == "hedgehog":
        require(centre == spec.centre and xs == set(spec.xs), "{} has the centre {!r} and others {!r}, expected {!r}", what,
                centre, xs, spec)


ix = st.integers(0, 9)
spec_case = st.tuples(st.sampled_from(["rigid", "balloon", "hedgehog"]), st.lists(ix, min_size=1, max_size=9), ix)


def spec_of(ns, case):
    kind, ixs, c = case
    vs = list(dict.fromkeys(ns[i % len(ns)] for i in ixs))
    need = {"rigid": 1, "balloon": 3, "hedgehog": 3}[kind]
    for n in ns:
        if len(vs) < need and n not in vs:
            vs.append(n)
    if kind == "hedgehog":
        return Spec(kind, vs, vs[c % len(vs)])
    return Spec(kind, vs)


pair_case = st.tuples(names(3, 9), spec_case, spec_case, st.booleans(), st.booleans(), st.integers(0, 5))


def pair_of(case):
    """Two specifications, often with the same centre or with the one's centre among the other's variables"""
    ns, one, two, same_centre, sub, form = case
    a, b = spec_of(ns, one), spec_of(list(map(alias, ns)), two)
    if same_centre and b.kind == "hedgehog":
        c = a.centre if a.kind == "hedgehog" else a.vars[0]
        xs = [v for v in b.vars if v != c]
        if len(xs) >= 2:
            b = Spec("hedgehog", xs, c)
    if sub and len(a.vars) > 3:
        # mostly shared
        vs = a.vars[1:] if form % 2 else a.vars[:-1]
        if b.kind == "hedgehog":
            c = b.centre
            b = Spec("hedgehog", [v for v in vs if v != c], c) if len([v for v in vs if v != c]) >= 2 else b
        else:
            b = Spec(b.kind, vs)
    a.own, b.own = one[2] % 5 == 1, two[2] % 5 == 2
    return a, b, [list, tuple, set, lambda l: list(l) + list(l), iter, dict.fromkeys][form]


def state(c):
    return (type(c), frozenset(c.vars), c.overconstrained, getattr(c, "c_var", None), frozenset(getattr(c, "x_vars", ())))


@check("C25", "pairs", pair_case, quick=1800,
       rule="pairs of clusters of all kinds over up to 9 variables, mostly overlapping, in both orders, and each with "
            "itself; non-trivial: at least two variables are shared")
def c25_pairs(case, note):
    a, b, form = pair_of(case)
    ca, cb = a.build(form), b.build(form)
    is_cluster(ca, a, "the cluster built as {!r}".format(a))
    is_cluster(cb, b, "the cluster built as {!r}".format(b))
    note.count(len(set(a.vars) & set(b.vars)) >= 2)
    before = (state(ca), state(cb))
    note.label("{} and {}".format(*sorted((a.kind, b.kind))) + (": none" if meet(a, b) is None else ": some"))
    for x, y, p, q in ((ca, cb, a, b), (cb, ca, b, a)):
        want = meet(p, q)
        what = "the intersection of {!r} and {!r}".format(p, q)
        with sut(what):
            r = x.intersection(y)
        if want is None:
            require(r is None, "{} is {!r}, expected none", what, r)
            continue
        require(r is not None, "{} is none, expected {!r}", what, want)
        is_cluster(r, want, what)
        require(r is not x and r is not y, "{} is one of the two itself", what)
        require((state(ca), state(cb)) == before, "{} changed a cluster", what)
        if isinstance(r.vars, set):
            r.vars.add("zz-new")
            r.vars.discard(want.vars[-1])
        if want.kind == "hedgehog" and isinstance(r.x_vars, set):
            r.x_vars.clear()
        require((state(ca), state(cb)) == before, "changing {} changed a cluster", what)
    for x, p in ((ca, a), (cb, b)):
        if len(p.vars) >= 2:
            with sut("the intersection of {!r} with itself".format(p)):
                r = x.intersection(x)
            require(r is not None, "the intersection of {!r} with itself is none", p)
            is_cluster(r, p, "the intersection of {!r} with itself".format(p))
            c = p.build()
            with sut("the intersection with an equal cluster"):
                r = x.intersection(c)
            is_cluster(r, p, "the intersection of {!r} with an equal cluster".format(p))
    require((state(ca), state(cb)) == before, "intersecting changed a cluster")


def big_pair(case):
    """Two large clusters with a large, small or no overlap, of names of all kinds"""
    seed, n, k1, k2, overlap = case
    r = Lcg(seed)
    ns = many_names(r, n, spread=n > 30)
    specs = []
    for which, k in enumerate((k1, k2)):
        if overlap == "most":
            own = [v for v in ns if r.below(9)]
        elif overlap == "half":
            own = ns[:3 * n // 4] if which else ns[n // 4:]
        elif overlap == "few":
            own = ns[:n // 2] + ns[-3:] if which else ns[n // 2:]
        else:
            own = ns[:n // 2] if which else ns[n // 2:]
        own = shuffled(r, own)
        specs.append((k, own))
    (k1, own1), (k2, own2) = specs
    shared = [v for v in own1 if v in own2]
    c1 = shared[r.below(len(shared))] if shared and r.below(4) else own1[0]
    c2 = c1 if c1 in own2 and r.below(4) else own2[r.below(len(own2))]
    a, b = Spec(k1, own1, c1 if k1 == "hedgehog" else None), Spec(k2, own2, c2 if k2 == "hedgehog" else None)
    form = [list, tuple, set, iter, dict.fromkeys][r.below(5)]
    a.own, b.own = r.below(5) == 0, r.below(5) == 0
    return a, b, form


def big_case(most):
    return st.tuples(seeds, st.integers(10, most), st.sampled_from(sorted(KINDS)), st.sampled_from(sorted(KINDS)),
                     st.sampled_from(["most", "half", "few", "none"]))


@check("C25", "wide", big_case(300), quick=60,
       rule="pairs of clusters of up to 300 variables that share most, half, a few or none, in both orders; non-trivial: "
            "at least two variables are shared")
def c25_wide(case, note):
    a, b, form = big_pair(case)
    ca, cb = a.build(form), b.build(form)
    is_cluster(ca, a, "a large cluster")
    is_cluster(cb, b, "a large cluster")
    note.count(len(set(a.vars) & set(b.vars)) >= 2)
    before = (state(ca), state(cb))
    for x, y, p, q in ((ca, cb, a, b), (cb, ca, b, a), (ca, ca, a, a)):
        want = meet(p, q)
        what = "the intersection of {!r} and {!r}".format(p, q)
        with sut(what):
            r = x.intersection(y)
        require((r is None) == (want is None), "{} is {!r}, expected {!r}", what, r, want)
        if want is not None:
            is_cluster(r, want, what)
            require(r is not x and r is not y, "{} is one of the two itself", what)
    require((state(ca), state(cb)) == before, "intersecting changed a cluster")


class Strange(Cluster):
    """A kind of cluster the library does not know"""

    def intersect_rigid(self, shared, rigid):
        return None

    intersect_hedgehog = intersect_balloon = intersect_rigid

    def common_distances(self, other):
        return set()

    def common_angles_rigid(self, rigid):
        return set()

    common_angles_hedgehog = common_angles_balloon = common_angles_rigid

    def n_distances(self):
        return 0

    n_angles = n_distances


@check("C25", "refusals", st.tuples(names(1, 6), st.lists(ix, max_size=5), ix, spec_case), quick=900,
       rule="constructions with up to five possibly repeated variables, the centre possibly among the others, and "
            "intersections with unknown kinds of clusters; non-trivial: fewer than three distinct variables")
def c25_refusals(case, note):
    ns, ixs, c, spec = case
    vs = [pick(ns, i) for i in ixs]
    c = ns[c % len(ns)]
    distinct = set(vs)
    note.count(len(distinct) < 3)
    if len(distinct) < 3:
        refused("a balloon of {!r}".format(vs), lambda: Balloon(vs), (ValueError,))
    else:
        is_cluster(Spec("balloon", list(dict.fromkeys(vs))).build(), Spec("balloon", list(dict.fromkeys(vs))), "the balloon")
    if len(distinct | {c}) < 3:
        note.label("hedgehog refused")
        note.label("centre among the others", c in distinct)
        refused("a hedgehog of {!r} and {!r}".format(c, vs), lambda: Hedgehog(c, vs), (ValueError,))
    else:
        with sut("a hedgehog of {!r} and {!r}".format(c, vs)):
            h = Hedgehog(c, vs)
        is_cluster(h, Spec("hedgehog", list(dict.fromkeys(vs)), c), "the hedgehog of {!r} and {!r}".format(c, vs))
    with sut("a rigid"):
        r = Rigid(vs)
        own = set(r.vars)
        vs.append("zz-later")
    require(own == distinct and set(r.vars) == distinct, "a rigid cluster of {!r} has the variables {!r}", distinct, r.vars)
    s = spec_of(ns, spec if len(ns) >= 3 else ("rigid",) + spec[1:])
    if len(s.vars) >= 2:
        x = s.build()
        before = state(x)
        refused("intersecting {!r} with an unknown kind of cluster".format(s), lambda: x.intersection(Strange(s.vars)),
                (TypeError,))
        require(state(x) == before, "refusing an intersection changed the cluster")


# ---------------------------------------------------------------- C26

def keys(rels, what):
    """Distances and angles as plain data, each once"""
    with sut("listing " + what):
        rels = list(rels)
    ds, as_ = set(), set()
    for r in rels:
        if isinstance(r, Distance):
            k = frozenset(r.points)
            require(len(k) == 2, "{} has the distance of {!r}", what, r.points)
            require(k not in ds, "{} has the distance of {!r} twice", what, r.points)
            ds.add(k)
        else:
            require(isinstance(r, Angle), "{} has {!r}", what, r)
            k = (r.points[1], frozenset([r.points[0], r.points[2]]))
            require(len(set(r.points)) == 3, "{} has the angle of {!r}", what, r.points)
            require(k not in as_, "{} has the angle of {!r} twice", what, r.points)
            as_.add(k)
    return ds, as_


def check_common(ca, cb, a, b):
    what = "of {!r} and {!r}".format(a, b)
    with sut("common constraints " + what):
        d, an, both = ca.common_distances(cb), ca.common_angles(cb), ca.common_constraints(cb)
    wd, wa = a.distances() & b.distances(), a.angles() & b.angles()
    gd, ga = keys(d, "common distances " + what)
    require(gd == wd and not ga, "the common distances {} are {!r}, expected {!r}", what, gd, wd)
    gd, ga = keys(an, "common angles " + what)
    require(ga == wa and not gd, "the common angles {} are {!r}, expected {!r}", what, ga, wa)
    gd, ga = keys(both, "common constraints " + what)
    require(gd == wd and ga == wa, "the common constraints {} are {!r} and {!r}, expected {!r} and {!r}", what, gd, ga, wd, wa)
    if len(a.vars) <= 9:
        # the answers are the caller's own
        for r in (d, an, both):
            if isinstance(r, set):
                r.clear()
                r.add("zz-changed")
        with sut("common constraints again " + what):
            again = [ca.common_distances(cb), ca.common_angles(cb), ca.common_constraints(cb)]
        for r, want in zip(again, ((wd, set()), (set(), wa), (wd, wa))):
            require(keys(r, "common constraints after changing the first answer " + what) == want,
                    "the common constraints {} are {!r} after the first answer was changed", what, r)
    return len(wd) + len(wa)


def check_list(c, spec):
    with sut("the variables of {!r}".format(spec)):
        vs = c.var_list()
        first, n = vs[0], len(vs)
    require(n == len(spec.vars) and set(vs) == set(spec.vars), "the variables of {!r} are {!r}", spec, vs)
    if spec.kind == "hedgehog":
        require(first == spec.centre, "the variables of {!r} are {!r}, not the centre first", spec, vs)
    with sut("changing the list of variables"):
        vs.append("zz-new")
        del vs[0]
        now = c.var_list()
    require(len(now) == n and set(now) == set(spec.vars), "changing the list of variables of {!r} changed the cluster", spec)


def check_counts(c, spec):
    with sut("counts of {!r}".format(spec)):
        got = (c.n_distances(), c.n_angles(), c.n_constraints())
    d, a = spec.counts()
    require(got == (d, a, d + a), "the counts of {!r} are {!r}, expected {!r}", spec if len(spec.vars) < 20 else
            "{} of {}".format(spec.kind, len(spec.vars)), got, (d, a, d + a))
    for g in got:
        require(isinstance(g, numbers.Integral), "a count is {!r}", g)


@check("C26", "pairs", pair_case, quick=1500,
       rule="common distances, angles and constraints of pairs of clusters of all kinds over up to 9 variables, in both "
            "orders and of each with itself, and all counts; non-trivial: something is common to two different clusters")
def c26_pairs(case, note):
    a, b, form = pair_of(case)
    ca, cb = a.build(form), b.build(form)
    before = (state(ca), state(cb))
    n = check_common(ca, cb, a, b)
    require(check_common(cb, ca, b, a) == n, "oracle")
    note.count(n > 0 and (a.kind, set(a.vars)) != (b.kind, set(b.vars)))
    note.label("{} and {}".format(*sorted((a.kind, b.kind))) + (": none" if n == 0 else ": some"))
    for c, s in ((ca, a), (cb, b)):
        check_counts(c, s)
        check_list(c, s)
        refused("angles common to {!r} and an unknown kind of cluster".format(s), lambda: c.common_angles(Strange(s.vars)),
                (TypeError,))
        n = check_common(c, c, s, s)
        require(n == sum(s.counts()), "oracle: {} {}", n, s.counts())
    require((state(ca), state(cb)) == before, "listing constraints changed a cluster")


@check("C26", "counts", st.tuples(st.sampled_from(["rigid", "balloon", "hedgehog"]), mix(st.integers(1, 12),
                                                                                      st.integers(1, 700)),
                                  st.sampled_from([0, 1, 5])), quick=400,
       rule="counts of clusters of up to 700 variables against binomial coefficients; non-trivial: more than 9 variables")
def c26_counts(case, note):
    kind, n, extra = case
    n = max(n, {"rigid": 1, "balloon": 3, "hedgehog": 3}[kind])
    vs = list(range(n))
    note.count(n > 9)
    s = Spec(kind, vs, vs[-1] if kind == "hedgehog" else None)
    c = s.build()
    check_counts(c, s)
    # counted afresh, not remembered
    check_counts(c, s)


@check("C26", "overlap", st.tuples(seeds, st.integers(8, 16), st.sampled_from(["rigid", "balloon", "hedgehog"]),
                                   st.sampled_from(["rigid", "balloon", "hedgehog"])), quick=100,
       rule="common constraints of clusters of up to 16 variables; non-trivial: at least five shared")
def c26_overlap(case, note):
    seed, n, k1, k2 = case
    r = Lcg(seed)
    vs = sized_names(seed, n)
    specs = []
    for k in (k1, k2):
        own = [v for v in vs if r.below(4)] or vs
        if len(own) < 3:
            own = vs
        specs.append(Spec(k, own, own[r.below(3)]) if k == "hedgehog" else Spec(k, own))
    a, b = specs
    note.count(len(set(a.vars) & set(b.vars)) >= 5)
    ca, cb = a.build(), b.build()
    check_common(ca, cb, a, b)
    check_common(cb, ca, b, a)


@check("C26", "huge", st.tuples(seeds, st.sampled_from([130, 215, 215, 230])), quick=3, thorough=30,
       rule="common distances of clusters of up to 230 variables that are much the same; all non-trivial")
def c26_shared(case, note):
    seed, n = case
    r = Lcg(seed)
    vs = many_names(r, n, spread=True)
    a, b = [Spec("rigid", shuffled(r, vs)[:n - r.below(8)]) for _ in range(2)]
    note.count()
    with sut("common distances of rigid clusters of {} and {} variables".format(len(a.vars), len(b.vars))):
        got = a.build().common_distances(b.build())
        keys = set(frozenset(d.points) for d in got)
    want = set(map(frozenset, itertools.combinations(set(a.vars) & set(b.vars), 2)))
    require(keys == want and len(got) == len(want), "rigid clusters of {} and {} variables have {} common distances, expected "
            "{}", len(a.vars), len(b.vars), len(got), len(want))


@check("C26", "wide", big_case(48), quick=8, thorough=150,
       rule="common constraints of clusters of up to 48 variables of all kinds that share most, half, a few or none, and "
            "all counts; non-trivial: something is common")
def c26_wide(case, note):
    a, b, form = big_pair(case)
    ca, cb = a.build(form), b.build(form)
    n = check_common(ca, cb, a, b)
    note.count(n > 0)
    check_common(cb, ca, b, a)
    for c, s in ((ca, a), (cb, b)):
        check_counts(c, s)
        check_list(c, s)


# ---------------------------------------------------------------- C27

rel_case = st.tuples(names(3, 6), st.lists(st.tuples(st.booleans(), st.permutations(range(6)), st.integers(0, 3)), min_size=1,
                                           max_size=8))


class OwnDistance(Distance):
    """A distance like any other"""

    pretty_name = "Length"


class OwnAngle(Angle):
    """An angle like any other"""

    pretty_name = "Corner"


def relation(ns, case):
    """(relation, key)"""
    distance, order, near = case
    pts = [ns[i] for i in order if i < len(ns)]
    if near > 1:
        pts = list(map(alias, pts))
    if near:
        # from few points, so that relations recur
        pts = [p for p in pts if p in ns[:3]]
    if distance:
        with sut("Distance"):
            return (OwnDistance if order[0] == 2 else Distance)(pts[0], pts[1]), ("d", frozenset(pts[:2]))
    with sut("Angle"):
        return (OwnAngle if order[0] == 2 else Angle)(*pts[:3]), ("a", pts[1], frozenset([pts[0], pts[2]]))


@check("C27", "equality", rel_case, quick=1500,
       rule="up to eight distances and angles between distinct points with names of all kinds, compared pairwise and "
            "collected in sets and dictionaries; non-trivial: two of them are equal and two are not")
def c27_equality(case, note):
    ns, specs = case
    rels = [relation(ns, s) for s in specs]
    seen = set()
    for (r, k), (s, l) in itertools.product(rels, rels):
        want = k == l
        seen.add(want if r is not s else None)
        with sut("comparing {} and {}".format(k, l)):
            eq, ne = r == s, r != s
            hr, hs = hash(r), hash(s)
        require(bool(eq) == want and bool(ne) != want, "{!r} and {!r}: == is {!r}, != is {!r}", k, l, eq, ne)
        if want:
            require(hr == hs, "{!r} and {!r} are equal, but hash to {!r} and {!r}", k, l, hr, hs)
    note.count({True, False} <= seen)
    ks = {k for _, k in rels}
    with sut("collecting relations"):
        s = set(r for r, _ in rels)
        d = {}
        for r, k in rels:
            d.setdefault(r, k)
    require(len(s) == len(ks), "a set of {!r} has {} elements, expected {}", [k for _, k in rels], len(s), len(ks))
    require(len(d) == len(ks) and all(d[r] == k for r, k in rels), "a dictionary mixes up relations: {!r}", d)
    for (r, k), spec in zip(rels, specs):
        again, _ = relation(ns, spec)
        with sut("looking up"):
            require(again in s, "an equal relation {!r} is not found in the set", k)
        pts = list(r.points)
        for other in (None, "x", 0, tuple(pts), pts, frozenset(pts), str(r), hash(r), Distance, ns[0]):
            with sut("comparing with {!r}".format(other)):
                eq, ne = r == other, r != other
            require(not eq and ne, "{!r} equals {!r}", k, other)
    # a distance and an angle on the same points
    with sut("comparing a distance with an angle"):
        d, a = Distance(ns[0], ns[1]), Angle(ns[0], ns[1], ns[2])
        require(not d == a and not a == d and len({d, a}) == 2, "a distance equals an angle")


@check("C27", "many", st.tuples(seeds, st.integers(3, 40), st.integers(50, 400)), quick=25, thorough=600,
       rule="sets and dictionaries of up to 400 distances and angles between up to 40 points; non-trivial: some of them "
            "are equal")
def c27_many(case, note):
    seed, n, k = case
    r = Lcg(seed)
    ns = many_names(r, n)
    rels, first = [], {}
    for _ in range(k):
        p = shuffled(r, ns)[:3]
        if r.below(2):
            with sut("Distance"):
                rel, key = Distance(p[0], p[1]), ("d", frozenset(p[:2]))
        else:
            with sut("Angle"):
                rel, key = Angle(*p), ("a", p[1], frozenset([p[0], p[2]]))
        rels.append((rel, key))
        first.setdefault(key, rel)
    note.count(len(first) < k)
    with sut("collecting relations"):
        s = set(rel for rel, _ in rels)
        d = {}
        for rel, key in rels:
            d.setdefault(rel, key)
        hashes = {}
        for rel, key in rels:
            hashes.setdefault(key, set()).add(hash(rel))
    require(len(s) == len(first), "a set of {} relations has {} elements", len(first), len(s))
    require(len(d) == len(first) and all(d[rel] == key for rel, key in rels), "a dictionary mixes up relations")
    require(all(len(h) == 1 for h in hashes.values()), "equal relations have different hashes")
