"""C21-C24 configurations"""

import itertools
import math
from fractions import Fraction

from hypothesis import strategies as st

from vkit.core import check, refused, require, sut
from vkit.gen import H, Lcg, absent, alias, many_names, pick, coord, log_uniform, mix, names, point, seeds, shuffled, signed
from props.triples import angles, polar
from solver.geometric.configuration import Configuration
from solver.geometry import Matrix, Vector


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def cross(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def moved(p, motion):
    """Rotation about the origin in degrees, then translation"""
    deg, dx, dy = motion
    if deg % 90 == 0:
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(deg // 90) % 4]
    else:
        c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return (p[0] * c - p[1] * s + dx, p[0] * s + p[1] * c + dy)


def make(mapping):
    with sut("Configuration"):
        return Configuration({v: Vector(*p) for v, p in mapping.items()})


def points(c):
    return {v: (c.get(v).x, c.get(v).y) for v in c.vars()}


def poke(c, k, other=None):
    """Something that changes nothing, just before an operation or query (sometimes nothing at all)"""
    vs = list(points(c))
    k %= 17
    with sut("an operation without effect (number {})".format(k)):
        if k == 0:
            str(c)
        elif k == 1:
            hash(c)
        elif k == 2:
            c.vars()
        elif k == 3 and vs:
            c.get(vs[-1])
        elif k == 4:
            c.copy()
        elif k == 5:
            c == (other or c)
        elif k == 6:
            c.select(vs[:1])
        elif k == 7:
            c.add(other or c)
        elif k == 8:
            c.transform(Matrix.identity(3))
        elif k == 9:
            c.transformation_matrix(other or c)
        elif k == 10:
            c.merge(other or c)
        elif k == 11:
            c != (other or c)
        elif k == 12:
            Configuration({})
        elif k == 13:
            c.transform(Matrix([[0, -1, 3], [1, 0, 4], [0, 0, 1]]))
        elif k == 14 and vs:
            c.select(vs)


def diameter(ps):
    return max([dist(p, q) for p, q in itertools.combinations(ps, 2)] or [0.0])


motion = st.tuples(mix(angles, st.sampled_from([0, 90, 180, 270, -90, 45.0])), mix(coord(100), st.just(0.0)),
                   mix(coord(100), st.just(0.0)))


def clouds(n):
    """n points: generic, on a grid (coincidences), all equal, on a line, or in a tight cluster"""
    few = st.tuples(st.integers(-2, 2).map(float), st.integers(-2, 2).map(float))
    generic = st.lists(point(100), min_size=n, max_size=n)
    gridded = st.lists(few, min_size=n, max_size=n)
    equal = point(100).map(lambda p: [p] * n)
    pairs = st.tuples(point(100), point(100), st.lists(st.booleans(), min_size=n, max_size=n)).map(
        lambda t: [t[0] if b else t[1] for b in t[2]])
    line = st.tuples(point(50), angles, st.lists(st.floats(-50, 50), min_size=n, max_size=n)).map(
        lambda t: [polar(t[0], x, t[1]) for x in t[2]])
    tight = st.tuples(point(50), log_uniform(-6, 0), st.lists(st.tuples(st.floats(-1, 1), st.floats(-1, 1)), min_size=n,
                                                            max_size=n)).map(
        lambda t: [(t[0][0] + t[1] * x, t[0][1] + t[1] * y) for x, y in t[2]])
    return mix(generic, generic, gridded, gridded, equal, pairs, line, tight)


# ---------------------------------------------------------------- C21

def unequal_for_sure(a, b):
    """No rotation and translation maps a onto b to 1e-8"""
    vs = list(a)
    for v, w in itertools.combinations(vs, 2):
        if abs(dist(a[v], a[w]) - dist(b[v], b[w])) > 1e-7:
            return True
    d = diameter(list(a.values()))
    for t in itertools.combinations(vs, 3):
        if abs(cross(*[a[v] for v in t]) - cross(*[b[v] for v in t])) > 1e-6 * d + 1e-12:
            return True
    return False


def misfit(a, b):
    """Largest distance between points of a and of b moved onto a (least squares rotation about the centroids)"""
    n = len(a)
    (ax, ay), (bx, by) = [(sum(p[0] for p in m.values()) / n, sum(p[1] for p in m.values()) / n) for m in (a, b)]
    dot = crs = 0.0
    for v in a:
        px, py, qx, qy = a[v][0] - ax, a[v][1] - ay, b[v][0] - bx, b[v][1] - by
        dot += px * qx + py * qy
        crs += qx * py - qy * px
    t = math.atan2(crs, dot)
    c, s = math.cos(t), math.sin(t)
    return max(dist((a[v][0] - ax, a[v][1] - ay), ((b[v][0] - bx) * c - (b[v][1] - by) * s,
                                                   (b[v][0] - bx) * s + (b[v][1] - by) * c)) for v in a)


def delicate(ps):
    """Nearly coincident as a whole: the direction is not defined to tolerance"""
    return 0 < diameter(ps) < 1e-6


CHANGES = ["none", "none", "none", "noise", "mirror", "mirror", "shift one", "scale", "swap", "rotate one", "nudge"]

c21_case = names(1, 6).flatmap(lambda ns: st.tuples(
    st.just(ns), clouds(len(ns)), motion, st.permutations(range(len(ns))), st.sampled_from(CHANGES),
    st.integers(0, 5), st.tuples(st.floats(-1, 1), st.floats(-1, 1)), log_uniform(-7, 2), st.booleans()))


@check("C21", "congruence", c21_case, quick=1800,
       rule="configurations of up to 6 points (coincident, collinear, tightly clustered or generic) against moved copies "
            "that are exact, perturbed, mirrored, scaled or changed in one point, in both orders and given in any order; "
            "non-trivial: at least two distinct points and a definite answer")
def c21_congruence(case, note):
    ns, ps, mo, order, change, i, (ex, ey), size, flag = case
    n = len(ns)
    i %= n
    a = dict(zip(ns, ps))
    qs = list(ps)
    if change == "noise":
        qs = [(x + 5e-10 * ex * (-1) ** k, y + 5e-10 * ey) for k, (x, y) in enumerate(qs)]
    elif change == "mirror":
        qs = [(x, -y) for x, y in qs]
    elif change == "shift one":
        qs[i] = (qs[i][0] + ex * size, qs[i][1] + ey * size)
    elif change == "nudge":
        qs[i] = (qs[i][0] + ex * 1e-6, qs[i][1] + ey * 1e-6)
    elif change == "scale":
        f = 1 + ex * 0.5
        qs = [(x * f, y * f) for x, y in qs]
    elif change == "swap":
        j = (i + 1) % n
        qs[i], qs[j] = qs[j], qs[i]
    elif change == "rotate one":
        j = (i + 1) % n
        rel = (qs[i][0] - qs[j][0], qs[i][1] - qs[j][1])
        r = moved(rel, (90 * (1 + int(size) % 3), 0, 0))
        qs[i] = (qs[j][0] + r[0], qs[j][1] + r[1])
    qs = [moved(q, mo) for q in qs]
    b = dict((alias(ns[k]), qs[k]) for k in order)
    if max(abs(x) for p in list(a.values()) + list(b.values()) for x in p) > 1000:
        return
    if delicate(list(a.values())) or delicate(list(b.values())):
        note.label("nearly coincident as a whole")
        return
    ca, cb = make(a), make(b)
    if flag:
        with sut("merge with an empty configuration"):
            cb, _ = cb.merge(make({}))
    if change in ("none", "noise"):
        want = True
    elif unequal_for_sure(a, b):
        want = False
    else:
        want = True if misfit(a, b) < 1e-10 else None
    what = "{!r} and {!r}".format(a, b)
    got = []
    for j, fn in enumerate((lambda: ca == cb, lambda: cb == ca, lambda: not (ca != cb), lambda: not (cb != ca))):
        poke(ca, len(what) + 3 * j, make({ns[0]: (1, 2)}) if (len(what) + i) % 2 else None)
        with sut("comparing " + what):
            got.append(fn())
    note.label("{}: {}".format(change, {True: "equal", False: "different", None: "open"}[want]))
    require(len(set(map(bool, got))) == 1 or want is None and got[0] == got[2] and got[1] == got[3],
            "comparisons of {} disagree: {!r}", what, got)
    if want is not None:
        require(bool(got[0]) == want, "{} are {}, but compare as {}", what, "congruent" if want else "not congruent",
                "equal" if got[0] else "different")
        note.count(diameter(ps) > 0)
    with sut("hashing"):
        hashes = (hash(ca), hash(cb), hash(ca))
    require(len(set(hashes)) == 1, "the hashes of configurations of the same variables are {!r}", hashes)
    for c, m in ((ca, a), (cb, b)):
        with sut("comparing with itself"):
            require(c == c and not (c != c), "{!r} differs from itself", m)
        require(points(c) == {v: (float(p[0]), float(p[1])) for v, p in m.items()}, "comparing changed a configuration")
    with sut("sets of configurations"):
        size_ = len({ca, cb})
    require(size_ == (1 if got[0] else 2), "a set of {} has {} elements", what, size_)


#: places far from the origin, both ways or one way
place = mix(st.integers(-10 ** 5, 10 ** 5), st.integers(2000, 10 ** 5), st.sampled_from([0, 0, -10 ** 4, 1000, 99999]))
quarters = st.integers(-40, 40).map(lambda n: n / 4.0)
far_case = names(2, 6).flatmap(lambda ns: st.tuples(
    st.just(ns), st.lists(st.tuples(quarters, quarters), min_size=len(ns), max_size=len(ns)),
    st.tuples(place, place), st.tuples(place, place), st.sampled_from([0, 90, 180, 270]), st.integers(0, 5)))


def far_figures(case):
    """A figure of quarters, and a function that gives it turned and moved elsewhere; all exactly"""
    ns, ps, (x, y), other, deg, i = case
    zero = lambda p: tuple(-0.0 if c == 0 and i % 2 else c for c in p)
    return [zero((px + x, py + y)) for px, py in ps], lambda qs: [zero(moved(q, (deg,) + other)) for q in qs]


@check("C21", "far", far_case, quick=500,
       rule="figures of quarters turned by right angles and moved by whole numbers of up to 100000, exactly, and then "
            "mirrored or with one point changed by a quarter at least; non-trivial: at least two distinct points")
def c21_far(case, note):
    ns, ps, _, _, _, i = case
    here, elsewhere = far_figures(case)
    note.count(len(set(ps)) > 1)
    i %= len(ns)
    changed = list(ps)
    changed[i] = (ps[i][0] + 0.25 * (1 + i), ps[i][1])
    for what, qs in (("moved", ps), ("mirrored", [(-x, y) for x, y in ps]), ("changed", changed)):
        a, b = dict(zip(ns, here)), dict(zip(map(alias, ns), elsewhere(qs)))
        flat = dict(zip(ns, ps))
        want = what == "moved" or not unequal_for_sure(flat, dict(zip(ns, qs)))
        if want and what != "moved":
            continue            # not told by distances and areas
        ca, cb = make(a), make(b)
        with sut("comparing {!r} and {!r}".format(a, b)):
            got = (ca == cb, cb == ca, not (ca != cb), not (cb != ca))
        require(all(bool(g) == want for g in got), "{!r} and {!r} are {}, but comparisons give {!r}", a, b, what, got)
        require(points(ca) == a and points(cb) == b, "comparing changed a configuration")


@check("C22", "far", st.tuples(far_case, st.sampled_from([1, 1, 1000])).map(
    lambda t: t[0][:2] + tuple((x * t[1], y * t[1]) for x, y in t[0][2:4]) + t[0][4:]), quick=500,
       rule="merges of parts of figures of quarters turned by right angles and moved by whole numbers of up to 1e8, "
            "exactly, against the exact result; non-trivial: two distinct points are shared and the other one has a "
            "point of its own")
def c22_far(case, note):
    ns, ps, _, _, _, i = case
    here, elsewhere = far_figures(case)
    n = len(ns)
    k = min(n, 2 + i % 3)
    there = elsewhere(ps)
    lim = 1e-7 + 1e-14 * max(abs(x) for p in here + there for x in p)
    for mine, theirs in ((range(k), range(n)), (range(n), range(k)), (range(n - 1), range(1, n))):
        a, b = {ns[j]: here[j] for j in mine}, {alias(ns[j]): there[j] for j in reversed(theirs)}
        shared = [ps[j] for j in mine if j in theirs]
        if len(set(shared)) < 2:
            continue
        note.count(len(theirs) > len(shared))
        what = "merging {!r} with {!r}".format(a, b)
        ca, cb = make(a), make(b)
        with sut(what):
            m, _ = ca.merge(cb)
            got = points(m)
        require(set(got) == set(a) | set(b), "{} has the variables {!r}", what, list(got))
        require(all(got[v] == p for v, p in a.items()), "{} moves its own points: {!r}", what, got)
        for j in theirs:
            require(dist(got[ns[j]], here[j]) <= lim, "{} puts {!r} at {!r}, expected {!r}", what, ns[j], got[ns[j]],
                    here[j])
        require(points(ca) == a and points(cb) == b, "{} changed its inputs", what)


def cloud(r, n):
    """n points: generic, on a grid, on a line, in two groups, or mostly the same"""
    kind = r.below(5)
    u = lambda s: s * (2 * r.unit() - 1)
    if kind == 0:
        return [(u(100), u(100)) for _ in range(n)]
    if kind == 1:
        return [(float(r.below(9) - 4), float(r.below(9) - 4)) for _ in range(n)]
    if kind == 2:
        p, a = (u(50), u(50)), u(180)
        return [polar(p, u(50), a) for _ in range(n)]
    if kind == 3:
        c = [(u(50), u(50)), (u(50), u(50))]
        return [(c[i % 2][0] + u(1), c[i % 2][1] + u(1)) for i in range(n)]
    p, q = (u(50), u(50)), (u(50), u(50))
    return [p if r.below(4) else q for _ in range(n)]


@check("C21", "wide", st.tuples(seeds, st.integers(7, 70), motion, st.sampled_from(CHANGES), st.integers(0, 200),
                                st.tuples(st.floats(-1, 1), st.floats(-1, 1)), log_uniform(-7, 2), st.booleans()), quick=25,
       thorough=700,
       rule="the same for configurations of up to 70 points; non-trivial: at least two distinct points and a definite answer")
def c21_wide(case, note):
    seed, n, mo, change, i, e, size, flag = case
    r = Lcg(seed)
    ns = many_names(r, n)
    c21_congruence((ns, cloud(r, n), mo, shuffled(r, range(n)), change, i, e, size, flag), note)


class Impostor(object):
    def __init__(self, h, mapping):
        self.h, self.mapping, self.hashvalue = h, mapping, h

    def __hash__(self):
        return self.h


c21_other = st.tuples(names(1, 6), names(1, 6), clouds(6), st.integers(0, 9))


@check("C21", "different_names", c21_other, quick=900,
       rule="comparisons of configurations with other variables (fewer, more, with the same sum of hashes) and with "
            "objects that are not configurations; non-trivial: the sets of variables differ")
def c21_names(case, note):
    ns, ms, ps, pick = case
    if pick < 3:
        ms = ns[:-1]
    elif pick < 5:
        ns, ms = [[1, 2], [3, 0], [0, 1, 2], [H("p", 0), "a"], [-1, 5]][pick:pick + 2] if pick == 3 else ([1, 2], [0, 3])
    elif pick == 5:
        ns, ms = [H("p", 0), "a"], [H("q", 0), "a"]
    a = dict(zip(ns, ps))
    b = dict(zip(ms, ps))
    ca, cb = make(a), make(b)
    same = set(a) == set(b)
    with sut("comparing configurations of {!r} and {!r}".format(list(a), list(b))):
        got = (ca == cb, cb == ca, ca != cb)
    if not same:
        note.count()
        note.label("same hash", hash(ca) == hash(cb))
        require(not got[0] and not got[1] and got[2], "configurations of {!r} and {!r} compare as equal", list(a), list(b))
    with sut("hash"):
        h = hash(ca)
    for other in (None, h, "x", a, list(a), Impostor(h, dict(a)), 0, (1, 2), Configuration):
        with sut("comparing with {!r}".format(other)):
            eq, ne = ca == other, ca != other
        require(not eq and ne, "a configuration equals {!r}", other)
    with sut("empty configurations"):
        e = Configuration({})
        got = (e == Configuration({}), e == ca, ca == e, hash(e) == hash(Configuration({})))
    require(got == (True, False, False, True), "comparisons with an empty configuration are {!r}", got)


# ---------------------------------------------------------------- C22, C23

@st.composite
def merge_case(draw, consistent=None):
    """(points of this, points of the other, whether the shared points have the same shape)"""
    ns = draw(names(1, 8))
    n = len(ns)
    shared = draw(mix(st.integers(0, min(n, 5)), st.integers(0, min(n, 3))))
    split = draw(st.integers(shared, n))
    ps = draw(clouds(n))
    order = draw(st.permutations(range(n)))
    mo = draw(motion)
    same = draw(st.sampled_from([True, True, False])) if consistent is None else consistent
    coincide = draw(st.sampled_from([False, False, False, True]))
    ps = list(ps)
    if coincide:
        for k in range(shared):
            ps[k] = ps[0]
    mine = list(range(split))
    theirs = list(range(shared)) + list(range(split, n))
    qs = list(ps)
    if not same:
        how = draw(st.sampled_from(["other", "mirror", "scale"]))
        if how == "other":
            qs = draw(clouds(n))
        elif how == "mirror":
            qs = [(x, -y) for x, y in ps]
        else:
            qs = [(2 * x, 2 * y) for x, y in ps]
        same = shared < 2
    a = {ns[k]: ps[k] for k in order if k in mine}
    b = {alias(ns[k]): moved(qs[k], mo) for k in reversed(order) if k in theirs}
    if draw(st.booleans()):
        return b, a, same
    return a, b, same


def spread_of(m, shared):
    return diameter([m[v] for v in shared])


def tolerance(a, b, shared):
    s = spread_of(a, shared) if len(shared) > 1 else 1.0
    return 1e-9 + (1e-10 / s if s > 0 else 0)


def usable(a, b, shared):
    """Shared points either coincide clearly or are clearly apart, in both"""
    if max([abs(x) for p in list(a.values()) + list(b.values()) for x in p] or [0]) > 1000:
        return False
    return all(spread_of(m, shared) < 1e-11 or spread_of(m, shared) > 1e-5 for m in (a, b))


def through(t, p):
    e = t.elements
    return (e[0][0] * p[0] + e[0][1] * p[1] + e[0][2], e[1][0] * p[0] + e[1][1] * p[1] + e[1][2])


def check_merge(ca, cb, a, b, same, note, what):
    """Merges, checks against the statement, and returns the merged configuration, its points and the flag"""
    shared = [v for v in a if v in b]
    fa, fb = ca.underconstrained, cb.underconstrained
    k = len(what) + len(a) + len(repr(b))
    poke(ca, k, cb if k % 2 else None)
    with sut(what):
        r = ca.merge(cb)
    poke(ca, k + 5, cb if k % 2 else None)
    with sut(what):
        offered = ca.transformation_matrix(cb)
    require(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Configuration), "{} returns {!r}", what, r)
    m, flag = r
    require(m is not ca and m is not cb, "{} does not give a new configuration", what)
    with sut("reading the merged configuration"):
        got = points(m)
        h = hash(m)
    require(set(got) == set(a) | set(b) and len(got) == len(list(m.vars())), "{} has the variables {!r}", what, list(got))
    require(h == hash(make(got)), "{} has hash {!r}, unlike a configuration of the same variables", what, h)
    for v in a:
        require(got[v] == (float(a[v][0]), float(a[v][1])), "{} moves {!r} from {!r} to {!r}", what, v, a[v], got[v])
    require(points(ca) == {v: (float(x), float(y)) for v, (x, y) in a.items()}
            and points(cb) == {v: (float(x), float(y)) for v, (x, y) in b.items()}
            and (ca.underconstrained, cb.underconstrained) == (fa, fb), "{} changed its inputs", what)
    require(isinstance(offered, tuple) and len(offered) == 2, "the offered transformation is {!r}", offered)
    t, tflag = offered
    e = t.elements
    tol = tolerance(a, b, shared)
    require(len(e) == 3 and all(len(r) == 3 for r in e), "the offered transformation is {!r}", e)
    require(max(abs(e[2][0]), abs(e[2][1]), abs(e[2][2] - 1)) <= 1e-10, "the last row is {!r}", e[2])
    rot = (e[0][0] - e[1][1], e[0][1] + e[1][0], e[0][0] ** 2 + e[1][0] ** 2 - 1)
    require(max(map(abs, rot)) <= 1e-10, "the offered transformation is not a rotation: {!r}", e)
    moved_points = {v: through(t, p) for v, p in b.items()}
    for v in b:
        if v not in a:
            require(dist(got[v], moved_points[v]) <= tol, "{} puts {!r} at {!r}, but the transformation gives {!r}", what, v,
                    got[v], moved_points[v])
    if shared and (same or len(shared) == 1):
        for v in shared:
            require(dist(moved_points[v], a[v]) <= tol, "{} moves the shared {!r} to {!r}, not onto {!r}", what, v,
                    moved_points[v], a[v])
        # so distances and orientations within the other one hold in the result
        for v, w in itertools.combinations(b, 2):
            d0, d1 = dist(b[v], b[w]), dist(got[v], got[w])
            require(abs(d0 - d1) <= 2 * tol, "{} changes the distance of {!r} and {!r} from {!r} to {!r}", what, v, w, d0, d1)
        lim = 8 * tol * (diameter(list(b.values())) + 1)
        for t3 in itertools.combinations(b, 3):
            c0, c1 = cross(*[b[v] for v in t3]), cross(*[got[v] for v in t3])
            require(abs(c0 - c1) <= lim, "{} changes the area of {!r} from {!r} to {!r}", what, t3, c0, c1)
    note.label("shared: {}".format(min(len(shared), 3)))
    return m, got, flag, tflag


@check("C22", "merge", merge_case(), quick=1500,
       rule="pairs of configurations of up to 8 variables sharing 0 to 5 points in any order, with the same or different "
            "shapes (other, mirrored, scaled), coincident shared points included; non-trivial: something is shared and "
            "the other one has points of its own")
def c22_merge(case, note):
    a, b, same = case
    shared = [v for v in a if v in b]
    if not usable(a, b, shared):
        note.label("nearly coincident shared points")
        return
    note.count(bool(shared) and len(b) > len(shared))
    note.label("same shape" if same else "different shape")
    note.label("coincident shared points", len(shared) > 1 and spread_of(a, shared) == 0)
    ca, cb = make(a), make(b)
    check_merge(ca, cb, a, b, same, note, "merging {!r} with {!r}".format(a, b))
    # with a copy of itself, and with itself
    with sut("copy"):
        cc = ca.copy()
    if a and usable(a, a, list(a)):
        check_merge(ca, cc, a, a, True, type(note)(), "merging {!r} with its copy".format(a))
        check_merge(ca, ca, a, a, True, type(note)(), "merging {!r} with itself".format(a))


@check("C22", "repeated", st.tuples(seeds, st.lists(st.tuples(motion, st.integers(2, 4), st.booleans()), min_size=4,
                                                   max_size=25)), quick=60, thorough=1500,
       rule="one configuration merged in turn with up to 25 others that are dropped after; all non-trivial")
def c22_repeated(case, note):
    seed, others = case
    r = Lcg(seed)
    ns = many_names(r, 6)
    ps = cloud(r, 6)
    a = {ns[k]: ps[k] for k in range(4)}
    ca = make(a)
    note.count()
    for mo, k, keep in others:
        qs = ps if keep else ps[:k] + cloud(r, 6 - k)
        b = {ns[i]: moved(qs[i], mo) for i in list(range(k)) + [4, 5]}
        if usable(a, b, ns[:k]):
            cb = make(b)
            check_merge(ca, cb, a, b, True, type(note)(), "merging {!r} with {!r}".format(a, b))
            if not keep:
                check_merge(cb, ca, b, a, True, type(note)(), "merging {!r} with {!r}".format(b, a))
            del cb


def wide_merge(case):
    seed, n, mo, kind, how = case
    r = Lcg(seed)
    ns = many_names(r, n)
    ps = cloud(r, n)
    shared = {"none": 0, "one": 1, "two": 2, "half": n // 2, "all": n}[kind]
    split = shared + r.below(n - shared + 1)
    if r.below(5) == 0:
        ps = [ps[0]] * shared + ps[shared:]
    qs = list(ps)
    if how == "other":
        qs = cloud(r, n)
    elif how == "mirror":
        qs = [(x, -y) for x, y in ps]
    a = {ns[k]: ps[k] for k in shuffled(r, range(split))}
    b = {alias(ns[k]): moved(qs[k], mo) for k in shuffled(r, list(range(shared)) + list(range(split, n)))}
    if r.below(2):
        a, b = b, a
    return a, b, how == "same" or shared < 2


wide_case = st.tuples(seeds, st.integers(9, 50), motion, st.sampled_from(["none", "one", "two", "half", "half", "all"]))


@check("C22", "wide", st.tuples(wide_case, st.sampled_from(["same", "same", "other", "mirror"])).map(
    lambda t: t[0] + t[1:]), quick=15, thorough=400,
    rule="the same for configurations of up to 50 points that share none, one, two, half or all; non-trivial: something is "
         "shared and the other one has points of its own")
def c22_wide(case, note):
    c22_merge(wide_merge(case), note)


def expected_flag(a, b, fa, fb):
    shared = [v for v in a if v in b]
    return (fa or fb or not shared or len(shared) == 1 and len(a) > 1 and len(b) > 1
            or len(shared) > 1 and spread_of(a, shared) < 1e-9)


@check("C23", "pairs", merge_case(True), quick=1500,
       rule="pairs of configurations of up to 8 variables whose 0 to 5 shared points have the same shape, coincident ones "
            "included; non-trivial: something is shared")
def c23_pairs(case, note):
    a, b, same = case
    shared = [v for v in a if v in b]
    if not usable(a, b, shared):
        note.label("nearly coincident shared points")
        return
    note.count(bool(shared))
    ca, cb = make(a), make(b)
    for x, y, p, q in ((ca, cb, a, b), (cb, ca, b, a)):
        require(x.underconstrained is False, "a fresh configuration is flagged underconstrained")
        m, got, flag, tflag = check_merge(x, y, p, q, same, note, "merging {!r} with {!r}".format(p, q))
        want = expected_flag(p, q, False, False)
        what = "merging {!r} with {!r}".format(p, q)
        require(flag is want or flag == want, "{} reports underconstrained {!r}, expected {!r}", what, flag, want)
        require(tflag == want, "the transformation for {} reports underconstrained {!r}, expected {!r}", what, tflag, want)
        require(m.underconstrained == want, "{} gives a configuration flagged {!r}, expected {!r}", what,
                m.underconstrained, want)
        with sut("copy"):
            require(m.copy().underconstrained == want, "a copy loses the flag")
        note.label("underconstrained" if want else "unique")


@check("C23", "wide", wide_case.map(lambda t: t + ("same",)), quick=15, thorough=400,
       rule="the same for configurations of up to 50 points; non-trivial: something is shared")
def c23_wide(case, note):
    c23_pairs(wide_merge(case), note)


@check("C23", "long", st.tuples(seeds, st.integers(8, 40)), quick=10, thorough=300,
       rule="up to 40 merges in a row, in which an underconstrained one occurs early, late or never; non-trivial: at least "
            "ten merges")
def c23_long(case, note):
    seed, k = case
    r = Lcg(seed)
    u = lambda s: s * (2 * r.unit() - 1)
    bad = r.below(2 * k)
    steps = []
    for i in range(k):
        n = 2 + r.below(4) if i != bad else r.below(2)
        steps.append((n, r.below(50), 1 if i == bad else r.below(2), (u(360), u(20), u(20)),
                      ["acc first", "part first"][r.below(2)], r.below(4) == 0))
    note.label("with an underconstrained merge", bad < k)
    extra = [(u(50), u(50)) for _ in range(2 * k)]
    done = c23_chains((many_names(r, 6), [(u(50), u(50)) for _ in range(6)], steps, extra), note)
    note.nontrivial = (done or 0) >= 10


chain_step = st.tuples(st.sampled_from([0, 1, 1, 2, 2, 2, 3, 4]), st.integers(0, 20), st.integers(0, 2), motion,
                       st.sampled_from(["acc first", "part first"]), st.booleans())


@check("C23", "chains", names(2, 6).flatmap(lambda ns: st.tuples(st.just(ns), clouds(len(ns)), st.lists(
    chain_step, min_size=2, max_size=6), clouds(12))), quick=500,
       rule="chains of up to 6 merges, each with a moved part of what was merged so far (0 to 4 of its points) and up to "
            "two new points, in either order and with copies in between; non-trivial: at least one merge is flagged and "
            "one is not")
def c23_chains(case, note):
    ns, ps, steps, extra = case
    ap = dict(zip(ns, ps))
    acc, af = make(ap), False
    seen = set()
    for k, (n, start, fresh, mo, order, copy) in enumerate(steps):
        old = list(ap)
        part = {v: moved(ap[v], mo) for v in [old[(start + i) % len(old)] for i in range(min(n, len(old)))]}
        for i in range(fresh):
            part[("new", k, i)] = extra[2 * k + i]
        shared = [v for v in ap if v in part]
        if not usable(ap, part, shared):
            return
        c = make(part)
        if copy:
            with sut("copy"):
                acc = acc.copy()
            require(acc.underconstrained == af, "a copy has flag {!r} instead of {!r}", acc.underconstrained, af)
        want = expected_flag(ap, part, af, False)
        if order == "part first":
            m, got, flag, tflag = check_merge(c, acc, part, ap, True, note, "merging in a chain")
        else:
            m, got, flag, tflag = check_merge(acc, c, ap, part, True, note, "merging in a chain")
        require(flag == want and tflag == want and m.underconstrained == want, "merging {!r} with {!r} (flagged {!r}) "
                "reports {!r}, offers {!r} and is flagged {!r}, expected {!r}", ap, part, af, flag, tflag,
                m.underconstrained, want)
        require(acc.underconstrained == af and c.underconstrained is False, "merging changed the flag of an input")
        acc, ap, af = m, got, want
        seen.add(want)
    note.count(len(seen) == 2)
    note.label("flagged" if af else "unique")
    return len(steps)


# ---------------------------------------------------------------- C24

ix = st.integers(0, 7)
#: moves, turns and scalings too small to matter, and not quite
nearly_identity = st.tuples(st.lists(mix(st.just(0.0), signed(log_uniform(-9, 0))), min_size=6, max_size=6),
                            st.booleans()).map(
    lambda t: [[1.0 + t[0][0] * t[1], t[0][1] * t[1], t[0][2]], [t[0][3] * t[1], 1.0 + t[0][4] * t[1], t[0][5]]])
c24_case = names(1, 7).flatmap(lambda ns: st.tuples(
    st.just(ns), clouds(len(ns)), clouds(len(ns)), st.lists(ix, max_size=6), st.lists(ix, max_size=6),
    mix(st.lists(st.lists(st.floats(-3, 3).map(lambda x: round(x, 3)), min_size=3, max_size=3), min_size=2, max_size=2),
        nearly_identity),
    st.sampled_from([[0.0, 0.0, 1.0], [0.0, 0.0, 2.0], [0.0, 0.0, -0.5], [0.001, 0.002, 1.0], [0, 0, 1]]),
    st.integers(0, 4)))


def resized(t):
    """The same points, much further or closer, with negative zeros"""
    (ns, ps, qs, *more), k, neg = t
    f = lambda x: -0.0 if x == 0 and neg else x * k
    return tuple([ns, [(f(x), f(y)) for x, y in ps], [(f(x), f(y)) for x, y in qs]] + more)


@check("C24", "operations", st.tuples(c24_case, st.sampled_from([1, 1, 1, 1, 1000.0, 10.0 ** 6, 10.0 ** 9, 2.0 ** -14]),
                                      st.booleans()).map(resized), quick=1200,
       rule="selections (any order, repeated, unknown), additions, homogeneous transformations and copies of "
            "configurations of up to 7 points of any magnitude, with changes to the original mapping; non-trivial: at least two variables")
def c24_operations(case, note):
    ns, ps, qs, sel, other, rows, last, form = case
    note.count(len(ns) > 1)
    a = {v: (float(x), float(y)) for v, (x, y) in zip(ns, ps)}
    given = {v: Vector(*p) for v, p in a.items()}
    with sut("Configuration"):
        c = Configuration(given)
        h = hash(c)
    objects = {v: c.get(v) for v in a}

    def intact(what):
        with sut("reading after " + what):
            vs, got = list(c.vars()), points(c)
        require(len(vs) == len(a) and set(vs) == set(a), "after {} the variables are {!r}", what, vs)
        require(got == a, "after {} the points are {!r}, expected {!r}", what, got, a)
        require(hash(c) == h and c.underconstrained is False, "after {} the hash or flag changed", what)

    intact("construction")
    given[ns[0]] = Vector(1234, 5678)
    given["zz-new"] = Vector(0, 0)
    intact("changing the mapping it was built from")
    given.clear()
    intact("clearing the mapping it was built from")
    with sut("Configuration of an empty mapping"):
        empty = Configuration(given)
        given[ns[0]] = Vector(1, 2)
        require(list(empty.vars()) == [] and empty == make({}), "an empty configuration got {!r} from the mapping it was "
                "built from", list(empty.vars()))

    def result(r, want, what):
        require(isinstance(r, Configuration) and r is not c, "{} gives {!r}", what, r)
        with sut("reading the result of " + what):
            got = points(r)
        require(set(got) == set(want), "{} gives the variables {!r}, expected {!r}", what, list(got), list(want))
        for v in want:
            require(dist(got[v], want[v]) <= 1e-13 * (1 + abs(want[v][0]) + abs(want[v][1])) if exact_not else
                    got[v] == want[v], "{} puts {!r} at {!r}, expected {!r}", what, v, got[v], want[v])
        require(hash(r) == hash(make(want)), "the result of {} has another hash than a configuration of its variables", what)

    exact_not = False
    k = len(repr(case))
    poke(c, k)
    chosen = [pick(ns, i) for i in sel]
    arg = [list, tuple, set, iter, dict.fromkeys][form](chosen)
    with sut("select({!r})".format(chosen)):
        s = c.select(arg)
    result(s, {v: a[v] for v in chosen}, "selecting {!r}".format(chosen))
    intact("selecting")
    for x in absent(ns):
        refused("selecting the unknown variable {!r}".format(x), lambda: c.select(chosen + [x]))
    intact("refusing a selection")
    for v in ns:
        if v not in chosen:
            refused("selecting {!r} from a selection without it".format(v), lambda: s.select([v]))
    # adding
    b = {v: (float(x), float(y)) for v, (x, y) in zip([alias(ns[i % len(ns)]) if i < 5 else "other%d" % i for i in other], qs)}
    cb = make(b)
    poke(c, k + 5, cb)
    with sut("add"):
        r = c.add(cb)
    poke(c, k + 7)
    with sut("add"):
        back = cb.add(c)
        itself = c.add(c)
    result(r, dict(b, **{}) | a, "adding")
    result(back, a | b, "adding the other way round")
    result(itself, a, "adding itself")
    require(points(cb) == b, "adding changed the other configuration")
    intact("adding")
    # transforming
    m = rows + [last]
    image = {}
    exact_not = True
    ok = True
    for v, (x, y) in a.items():
        w = last[0] * x + last[1] * y + last[2]
        if abs(w) < 0.1 + 1e-4 * (abs(last[0] * x) + abs(last[1] * y)):
            ok = False
            break
        image[v] = ((m[0][0] * x + m[0][1] * y + m[0][2]) / w, (m[1][0] * x + m[1][1] * y + m[1][2]) / w)
    if ok:
        note.label("projective", last[0] != 0)
        mat = Matrix([list(r_) for r_ in m])
        poke(c, k + 9, cb)
        with sut("transform by {!r}".format(m)):
            t = c.transform(mat)
        require(isinstance(t, Configuration) and t is not c, "transforming gives {!r}", t)
        with sut("reading"):
            got = points(t)
        note.label("large", max(abs(x) for p in a.values() for x in p) > 1000)
        require(set(got) == set(image), "transforming gives the variables {!r}", list(got))
        for v in image:
            lim = 1e-12 * (10 + 10 * abs(a[v][0]) + 10 * abs(a[v][1]))
            require(dist(got[v], image[v]) <= lim, "transforming {!r} by {!r} puts it at {!r}, expected {!r}", a[v], m,
                    got[v], image[v])
        require(mat.elements == m, "transforming changed the matrix")
        intact("transforming")
    with sut("transform by the identity"):
        result(c.transform(Matrix.identity(3)), a, "transforming by the identity")
    # copying
    poke(c, k + 11, cb)
    with sut("copy"):
        k = c.copy()
    exact_not = False
    result(k, a, "copying")
    if not 0 < diameter(list(a.values())) < 1e-6 and max(abs(x) for p in a.values() for x in p) <= 1000:
        with sut("comparing the copy"):
            require(k == c and c == k, "the copy differs from the original")
    require(k.underconstrained is False, "the copy is flagged")
    with sut("merge with an empty configuration"):
        f, flag = c.merge(make({}))
        kf = f.copy()
        e, eflag = make({}).merge(make({}))
        ke = e.copy()
    require(kf.underconstrained == flag and f.underconstrained == flag, "the copy has another flag")
    require(ke.underconstrained == eflag == e.underconstrained, "the copy of an empty configuration has another flag")
    intact("copying")
    for v in a:
        require((objects[v].x, objects[v].y) == a[v], "a point was changed")


@check("C24", "wide", st.tuples(seeds, st.integers(8, 120), st.integers(0, 4), st.sampled_from(
    [[0.0, 0.0, 1.0], [0.0, 0.0, 2.0], [0.001, 0.002, 1.0], [0, 0, 1]])), quick=25, thorough=700,
    rule="the same for configurations of up to 120 points; all non-trivial")
def c24_wide(case, note):
    seed, n, form, last = case
    r = Lcg(seed)
    u = lambda: round(6 * r.unit() - 3, 3)
    c24_operations((many_names(r, n), cloud(r, n), cloud(r, n), [r.below(2 * n) for _ in range(r.below(n + 1))],
                    [r.below(2 * n) if r.below(3) else r.below(5) for _ in range(r.below(n + 1))],
                    [[u(), u(), u()], [u(), u(), u()]], last, form), note)
