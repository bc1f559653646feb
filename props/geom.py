"""C12-C17 orientation, angles, intersections and frames"""

import itertools
import math
from decimal import Decimal, getcontext
from fractions import Fraction

from hypothesis import strategies as st

from vkit.core import check, require, sut
from vkit.gen import coord, log_uniform, mix, point, signed
from props.triples import (ABS, ACUTE, CCW, CW, DEGENERATE, FLAT, OBTUSE, angles, arms, classify, corner, cross_exact,
                           lengths, magnitude, mid, polar, small_point, spread, tiny, triple, true_angle, turn)
from solver.geometry import (Matrix, Vector, angle_3p, cc_int, cl_int, cr_int, cs_transform_matrix, distance_2p,
                             is_acute, is_clockwise, is_counterclockwise, is_flat, is_obtuse, ll_int, lr_int, make_hcs,
                             make_hcs_scaled, rr_int)

getcontext().prec = 60
EPS = 2.0 ** -53
pi = math.pi


def xy(v):
    return (v.x, v.y)


def vectors(pts):
    return [Vector(*p) for p in pts]


def unchanged(vs, pts, what):
    for v, p in zip(vs, pts):
        require(xy(v) == (float(p[0]), float(p[1])), "{} changed its argument {!r} to {!r}", what, p, xy(v))


def call(fn, *args):
    """Calls with fresh vectors for points; arguments must not be modified. Equal points may be the same vector"""
    name = getattr(fn, "__name__", "call")

    def once(given):
        with sut("{}{!r}".format(name, args)):
            r = fn(*given)
        for g, a in zip(given, args):
            if isinstance(a, tuple):
                require(xy(g) == (float(a[0]), float(a[1])), "{} changed its argument {!r} to {!r}", name, a, xy(g))
        return r
    r = once([Vector(*a) if isinstance(a, tuple) else a for a in args])
    points = [a for a in args if isinstance(a, tuple)]
    if len(set(map(repr, points))) < len(points):
        one = dict((repr(a), Vector(*a)) for a in points)
        same = once([one[repr(a)] if isinstance(a, tuple) else a for a in args])
        require(plain(same) == plain(r), "{}{!r} gives {!r}, but {!r} when equal arguments are the same vector", name, args,
                plain(r), plain(same))
    return r


def plain(r):
    """An answer as comparable data"""
    if isinstance(r, (list, tuple)):
        return [plain(x) for x in r]
    if isinstance(r, Matrix):
        return [list(map(float, row)) for row in r.elements]
    return xy(r) if isinstance(r, Vector) else r


def reuse(fns, cases):
    """Asks about one placement after another, first with new vectors and then with the same vectors moved in place"""
    same = None
    for args in cases:
        if same is None:
            same = [Vector(*a) if isinstance(a, tuple) else a for a in args]
        for i, a in enumerate(args):
            if isinstance(a, tuple):
                same[i].x, same[i].y = a
            else:
                same[i] = a
        for fn in fns:
            want = plain(call(fn, *args))
            with sut("{} of vectors that were moved".format(fn.__name__)):
                got = plain(fn(*same))
            require(got == want, "{}{!r} gives {!r}, but {!r} with vectors that were moved there", fn.__name__, args, want,
                    got)


def whole(r, flag):
    """A whole number as such"""
    return int(r) if flag and r == int(r) else r


def images(pts):
    """The same placement moved, turned, mirrored and scaled: (what, points)"""
    yield "given", pts
    yield "shifted", [(x + 3.0, y - 7.0) for x, y in pts]
    yield "turned", [(-y, x) for x, y in pts]
    yield "mirrored", [(x, -y) for x, y in pts]
    yield "doubled", [(2 * x, 2 * y) for x, y in pts]


#: a few vectors, used again and again, or coordinates that differ in sign only
again = mix(st.tuples(small_point, small_point), st.tuples(point(100), small_point, point(100)),
            mix(st.integers(1, 9).map(float), coord(100), signed(log_uniform(-2, 4))).map(
                lambda a: ((a, a), (-a, a), (a, -a), (-a, -a))))


def again_by(n):
    """n of them"""
    return again.flatmap(lambda vs: st.tuples(*[st.sampled_from(vs)] * n))


# ---------------------------------------------------------------- C12

big = st.tuples(st.integers(-10 ** 6, 10 ** 6).map(float), st.integers(-10 ** 6, 10 ** 6).map(float))
orient = mix(triple, triple, triple, triple, st.tuples(big, big, big), again_by(3))


@check("C12", "orientation", orient, quick=1500,
       rule="triples (grids, nearly collinear down to 1e-12, areas near the tolerance, coincident points, large "
            "coordinates), in all six orders and five images, against exact rational arithmetic; non-trivial: not in the "
            "rounding band of the tolerance and no two points equal")
def c12(case, note):
    for what, pts in images(list(case)):
        for order in itertools.permutations(range(3)):
            p = tuple(pts[i] for i in order)
            got = (call(is_clockwise, *p), call(is_counterclockwise, *p), call(is_flat, *p))
            for g in got:
                require(g is True or g is False or type(g).__name__ == "bool_", "orientation test returned {!r}", g)
            require(sum(map(bool, got)) == 1, "clockwise, counter-clockwise, flat of {!r} are {!r}", p, got)
            want = turn(*p)
            if want is None:
                note.label("undecided")
                continue
            have = [CW, CCW, FLAT][[bool(g) for g in got].index(True)]
            require(have == want, "{!r} is reported {}, but is {} (doubled area {})", p, have, want,
                    float(cross_exact(*p)))
            if order == (0, 1, 2) and what == "given":
                note.label(want)
                note.count(len(set(p)) == 3)
                c = abs(cross_exact(*p))
                note.label("within a factor ten of the tolerance", ABS / 10 < c < ABS * 10)
    reuse([is_clockwise, is_counterclockwise, is_flat], [tuple(pts) for _, pts in images(list(case))])


# ---------------------------------------------------------------- C13

def angle_tolerance(pts):
    """Rounding of an arc cosine of a dot product"""
    t = abs(true_angle(*pts))
    s = abs(math.sin(t))
    return min(1e-7, 2e-15 / s if s else 1) + 2e-14


@check("C13", "angle", mix(triple, triple, triple, triple, again_by(3)), quick=1500,
       rule="triples of all kinds and five images of each, in both orders, against the angle of the exact cross and dot "
            "products; non-trivial: both arms have length and the orientation is not undecided")
def c13_angle(case, note):
    for what, pts in images(list(case)):
        for p in (tuple(pts), tuple(reversed(pts))):
            kind = corner(*p)
            a = call(angle_3p, *p)
            lo = min(arms(*p))
            if abs(lo - 1e-8) < 1e-13:
                continue
            if lo < 1e-8:
                require(a is None, "the angle of {!r} is {!r} although an arm has no length", p, a)
                note.label("no angle")
                for fn in (is_acute, is_obtuse):
                    require(not call(fn, *p), "{} is true for degenerate {!r}", fn.__name__, p)
                continue
            require(isinstance(a, float), "the angle of {!r} is {!r}", p, a)
            require(-pi <= a <= pi, "the angle of {!r} is {!r}, outside [-pi, pi]", p, a)
            t, tol = true_angle(*p), angle_tolerance(p)
            require(abs(abs(a) - abs(t)) <= tol, "the size of the angle of {!r} is {!r}, expected {!r}", p, abs(a), abs(t))
            side = turn(*p)
            # the smallest angles may be rounded to zero
            if side == CW:
                require(a > 0 or a == 0 and abs(t) < 1e-7, "the angle of clockwise {!r} is {!r}", p, a)
            elif side == CCW:
                require(a < 0 or a == 0 and abs(t) < 1e-7, "the angle of counter-clockwise {!r} is {!r}", p, a)
            if what == "given":
                note.count(side is not None)
                note.label(str(side))
                note.label(str(kind))
                note.label("steeper than 1e-3 from straight", side == FLAT)
            if kind is not None:
                ac, ob = bool(call(is_acute, *p)), bool(call(is_obtuse, *p))
                require(ac == (kind == ACUTE), "{!r} is {}, but acute is {!r} (angle {!r})", p, kind, ac, t)
                require(ob == (kind == OBTUSE), "{!r} is {}, but obtuse is {!r} (angle {!r})", p, kind, ob, t)
    reuse([angle_3p, is_acute, is_obtuse], [tuple(pts) for _, pts in images(list(case))])


any_size = mix(coord(1000), signed(log_uniform(-9, 12)), st.sampled_from([0.0, -0.0]))
somewhere = mix(point(1000), big, st.tuples(any_size, any_size))


@check("C13", "distance", st.tuples(somewhere, somewhere, mix(st.none(), st.none(), st.tuples(tiny, tiny))), quick=1200,
       rule="pairs of points from 1e-12 to 1e12 apart, in both orders; non-trivial: the points differ")
def c13_distance(case, note):
    p, q, near = case
    if near is not None:
        q = (p[0] + near[0], p[1] + near[1])
    dx, dy = Fraction(q[0]) - Fraction(p[0]), Fraction(q[1]) - Fraction(p[1])
    want = math.hypot(float(dx), float(dy))
    note.count(p != q)
    for a, b in ((p, q), (q, p)):
        d = call(distance_2p, a, b)
        require(d >= 0 and abs(d - want) <= 1e-14 * want, "the distance of {!r} and {!r} is {!r}, expected {!r}", a, b, d,
                want)
    reuse([distance_2p], [(p, q), (q, p), (p, p), ((q[0] + 1, q[1]), p)])


# ---------------------------------------------------------------- point sets

def match(got, want, tol, what):
    """The same points, in any order"""
    require(len(got) == len(want), "{} gives {} point(s) {!r}, expected {!r}", what, len(got), got, want)
    for perm in itertools.permutations(want):
        if all(math.hypot(float(g.x) - w[0], float(g.y) - w[1]) <= tol for g, w in zip(got, perm)):
            return
    require(False, "{} gives {!r}, expected {!r} (to {:.3g})", what, [xy(g) for g in got], want, tol)


def listed(r, what):
    require(isinstance(r, (list, tuple)), "{} returned {!r}, not a list", what, r)
    for s in r:
        require(isinstance(s, Vector) and math.isfinite(s.x) and math.isfinite(s.y), "{} returned {!r}", what, r)
    return list(r)


# ---------------------------------------------------------------- C14

def D(x):
    return Decimal(x)


def circles_truth(p1, r1, p2, r2, exact):
    """(kind, points, tolerance); kind None when too close to a threshold"""
    dx, dy = D(p2[0]) - D(p1[0]), D(p2[1]) - D(p1[1])
    d = (dx * dx + dy * dy).sqrt()
    if d < D("0.9e-8"):
        return "concentric", [], 0
    if d < D("0.9e-3"):
        return None, [], 0
    a, b = D(r1), D(r2)
    u = ((a * a - b * b) / d + d) / 2
    delta = a * a - u * u
    # rounding of u and of delta
    eu = 4 * EPS * ((r1 * r1 + r2 * r2) / float(d) + float(d))
    ed = 2 * abs(float(u)) * eu + eu * eu + 4 * EPS * (r1 * r1 + float(u) ** 2)
    tol = 1e-8 + 1e-5 * float(u) ** 2
    fd = float(delta)
    mag = magnitude(p1, p2) + r1 + r2
    ux, uy = dx / d, dy / d
    foot = (float(D(p1[0]) + ux * u), float(D(p1[1]) + uy * u))
    if fd < -tol * (1 + 1e-6) - ed:
        return "none", [], 0
    if exact and delta == 0 or -tol * (1 - 1e-6) + ed < fd < -ed:
        if r1 == 0 and abs(float(u)) < 1e-6:
            # the first circle is a point, on the other one
            return "touch", [p1], 2e-6
        if abs(float(u)) < 1e-6:
            return None, [], 0
        # within the tolerance the circles do not quite meet; the point must be near the gap on the line of centres
        return "touch", [foot], eu * 4 + 16 * EPS * mag
    if fd > ed:
        v = delta.sqrt()
        if abs(float(u)) > 1e-6 and float(v) / abs(float(u)) < 2e-8:
            return "near", [foot], float(v) + math.sqrt(ed) + eu * 4 + 16 * EPS * mag
        if abs(float(u)) <= 1e-6 and (r1 / float(d) < 2e-8 or r1 < 1e-3):
            return None, [], 0
        pts = [(float(D(p1[0]) + ux * u - s * uy * v), float(D(p1[1]) + uy * u + s * ux * v)) for s in (1, -1)]
        ev = min(math.sqrt(2 * ed), ed / float(v))
        # within 1e-8 of the first centre the offset along the line of centres is left out
        extra = 1.1e-8 if abs(float(u)) <= 1.1e-8 else 0
        return "cross", pts, 4 * eu + 4 * ev + 16 * EPS * mag + extra
    if abs(fd) <= ed and abs(float(u)) > 1e-6:
        return "near", [foot], math.sqrt(2 * ed) + eu * 4 + 16 * EPS * mag
    return None, [], 0


def on_circle_tolerance(p1, r1, p2, r2, other):
    """How far off a circle a point may be when the circles only touch to tolerance"""
    d = math.hypot(p2[0] - p1[0], p2[1] - p1[1])
    u = ((r1 * r1 - r2 * r2) / d + d) / 2
    tol = 1e-8 + 1e-5 * u * u
    w, r = (abs(d - u), r2) if other else (abs(u), r1)
    mag = magnitude(p1, p2) + r1 + r2
    ed = 64 * EPS * (mag * mag + mag ** 4 / (d * d))
    return min(math.sqrt(tol + ed), (tol + ed) / (w + r) if w + r else 1) * 1.01 + 1.1e-8 + 1e-12 * mag


def circles_check(p1, r1, p2, r2, exact, note, labelled):
    kind, want, tol = circles_truth(p1, r1, p2, r2, exact)
    what = "cc_int({!r}, {!r}, {!r}, {!r})".format(p1, r1, p2, r2)
    got = listed(call(cc_int, p1, whole(r1, not labelled), p2, whole(r2, not labelled)), what)
    d = math.hypot(p2[0] - p1[0], p2[1] - p1[1])
    if d > 1e-3:
        require(len(got) <= 2, "{} gives {} points", what, len(got))
        for s in got:
            for c, r, other in ((p1, r1, False), (p2, r2, True)):
                off = abs(math.hypot(s.x - c[0], s.y - c[1]) - r)
                lim = on_circle_tolerance(p1, r1, p2, r2, other)
                require(off <= lim, "{}: {!r} is {:.3g} off the circle ({!r}, {!r})", what, xy(s), off, c, r)
    if kind == "near":
        # as good as touching: one point, or two hardly apart
        require(1 <= len(got) <= 2, "{} gives {} points, but the circles touch", what, len(got))
        for s in got:
            require(math.hypot(s.x - want[0][0], s.y - want[0][1]) <= tol, "{} gives {!r}, expected {!r} (to {:.3g})",
                    what, xy(s), want[0], tol)
    elif kind is not None:
        match(got, want, tol, what)
        if kind == "cross":
            require(xy(got[0]) != xy(got[1]), "{} gives the same point twice", what)
    if labelled:
        note.label(kind or "undecided")
        note.count(kind in ("cross", "touch", "none", "near"))
        note.label("zero radius", r1 == 0 or r2 == 0)


radius = mix(st.integers(0, 12).map(float), st.floats(0.001, 50), log_uniform(-3, 2))
centre = mix(small_point, point(100))
circles_any = st.tuples(centre, radius, centre, radius)
#: circles by distance, just crossing or just missing, from outside or inside
circles_near = st.builds(lambda c, a, r1, r2, inside, k: (c, r1, polar(c, max(0.0, (abs(r1 - r2) if inside else r1 + r2)
                                                                         + k), a), r2),
                         centre, angles, radius, radius, st.booleans(), mix(signed(log_uniform(-12, 0)), st.just(0.0)))
#: proper crossings: the distance between |r1 - r2| and r1 + r2
circles_cross = st.builds(lambda c, a, r1, r2, f: (c, r1, polar(c, abs(r1 - r2) + f * 2 * min(r1, r2), a), r2),
                          centre, angles, radius, radius, st.floats(0.0, 1.0))
#: the second circle passing through the first centre, or the common chord through it
circles_special = st.builds(lambda c, a, r1, k, f, d0: (
    (c, r1, polar(c, f, a), f) if k == 0 else
    (c, r1, polar(c, d0, a), math.sqrt(r1 * r1 + d0 * d0)) if k == 1 else
    (c, r1, c, f) if k == 2 else (c, 0.0, polar(c, f, a), f)),
    centre, angles, radius, st.integers(0, 3), st.floats(0.01, 30), st.floats(0.01, 30))
#: large ones, and far ones
circles_far = st.builds(lambda c, e, i, j: ((c[0][0] * 10.0 ** e + i, c[0][1] * 10.0 ** e + j), c[1] * 10.0 ** e,
                                            (c[2][0] * 10.0 ** e + i, c[2][1] * 10.0 ** e + j), c[3] * 10.0 ** e),
                        circles_cross, st.integers(0, 4), st.integers(-10 ** 4, 10 ** 4), st.integers(-10 ** 4, 10 ** 4))
#: numbers that differ in sign only, and the same centre
circles_again = st.builds(lambda ps, i, j: (ps[0], abs(ps[0][i]), ps[1], abs(ps[1][j])), again_by(2), st.integers(0, 1),
                          st.integers(0, 1))
circles = mix(circles_far, circles_any, circles_near, circles_near, circles_cross, circles_special, circles_again)
TRIPLES = [(1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17), (-3, 4, 5), (-1, 0, 1), (0, -1, 1)]


@check("C14", "circles", circles, quick=1500,
       rule="pairs of circles of all relative positions, down to 1e-12 from touching, with zero radii and common chords "
            "through a centre, in both orders and translated and turned, against 60-digit arithmetic; non-trivial: not "
            "in the band of a threshold and not concentric")
def c14(case, note):
    p1, r1, p2, r2 = case
    first = True
    for what, (a, b) in images([p1, p2]):
        s = 2 if what == "doubled" else 1
        circles_check(a, s * r1, b, s * r2, False, note, first)
        circles_check(b, s * r2, a, s * r1, False, note, False)
        first = False
    reuse([cc_int], [(a, r1, b, r2) for _, (a, b) in images([p1, p2])] + [(p2, r1, p1, r2), (p1, r2, p2, r1)])


@check("C14", "touching", st.tuples(small_point, st.sampled_from(TRIPLES), st.integers(1, 6), st.integers(0, 30),
                                    st.booleans()), quick=600,
       rule="circles with integer data that touch exactly, from outside or inside, or whose second one is a point; all "
            "non-trivial")
def c14_touch(case, note):
    c, (x, y, h), k, r, inside = case
    d = h * k
    r1 = float(r)
    r2 = float(r + d if inside or r > d else d - r)
    note.count()
    note.label("zero radius", r1 == 0 or r2 == 0)
    p2 = (c[0] + x * k, c[1] + y * k)
    circles_check(c, r1, p2, r2, True, note, True)
    circles_check(p2, r2, c, r1, True, note, False)


# ---------------------------------------------------------------- C15

def line_circle_truth(p1, r, p2, v):
    """(kind, points, tolerance); the kind is told by the square of half the chord, to 1e-8"""
    F = Fraction
    px, py = F(p2[0]) - F(p1[0]), F(p2[1]) - F(p1[1])
    vx, vy = F(v[0]), F(v[1])
    d2 = vx * vx + vy * vy
    Dd = px * vy - vx * py
    E = F(r) * F(r) * d2 - Dd * Dd
    n = math.hypot(*v)
    fp = math.hypot(float(px), float(py))
    eD = 8 * EPS * fp * n
    eE = 8 * EPS * (r * r * n * n) + 2 * abs(float(Dd)) * eD + eD * eD
    h2 = float(E / d2)
    eh = eE / n / n + 8 * EPS * abs(h2)
    mag = magnitude(p1, p2) + r + fp
    foot = (float(F(p1[0]) + Dd * vy / d2), float(F(p1[1]) - Dd * vx / d2))
    if h2 > 1e-8 * (1 + 1e-6) + eh:
        sE = (D(E.numerator) / D(E.denominator)).sqrt()
        fs = F(sE)
        pts = [(float(F(p1[0]) + (Dd * vy + s * vx * fs) / d2), float(F(p1[1]) + (-Dd * vx + s * vy * fs) / d2))
               for s in (1, -1)]
        return "two", pts, eD / n * 4 + 4 * eE / float(sE) / n + 32 * EPS * mag
    if abs(h2) < 1e-8 * (1 - 1e-6) - eh:
        return "one", [foot], eD / n * 4 + 32 * EPS * mag
    if h2 < -1e-8 * (1 + 1e-6) - eh:
        return "none", [], 0
    return None, [], 0


def along(p, d, v):
    """The point at distance d from p in direction v"""
    n = math.hypot(*v)
    return (p[0] + d * (v[0] / n), p[1] + d * (v[1] / n))


#: lengths of directions, which do not matter
length = mix(st.floats(0.01, 100), log_uniform(-2, 2), log_uniform(-7, 5))
direction = mix(st.builds(lambda a, n: polar((0.0, 0.0), n, a), angles, length),
                st.tuples(st.integers(-5, 5).map(float), st.integers(-5, 5).map(float)).filter(any),
                st.builds(lambda n, s, up: (0.0, s * n) if up else (s * n, 0.0), length,
                          st.sampled_from([1, -1]), st.booleans()))


def far_enough(v):
    """Long enough to be a direction"""
    return math.hypot(*v) > 1e-7


cl_any = st.tuples(centre, radius, centre, direction)
#: lines by distance from the centre, and a point along them
cl_near = st.builds(lambda c, r, a, k, t, n, s: (c, r, polar(polar(c, max(0.0, r + k), a), t, a + 90),
                                                 polar((0.0, 0.0), s * n, a + 90)),
                    centre, radius, angles, mix(signed(log_uniform(-12, 0)), st.just(0.0)), st.floats(-60, 60),
                    length, st.sampled_from([1, -1]))
cl_cross = st.builds(lambda c, r, f, a, t, n: (c, r, polar(polar(c, f * r, a), t, a + 90), polar((0.0, 0.0), n, a + 90)),
                     centre, mix(st.floats(0.1, 50), st.integers(1, 9).map(float)), mix(st.floats(-0.99, 0.99), st.just(0.0)),
                     angles, mix(st.floats(-60, 60), st.just(0.0), st.integers(-9, 9).map(float)), length)
#: starting on the circle or at the centre
cl_start = st.builds(lambda c, r, a, v, at: (c, r, c if at else polar(c, r, a), v), centre, radius, angles, direction,
                     st.booleans())
#: started far away
cl_far = st.builds(lambda c, e: (c[0], c[1], along(c[2], -e, c[3]), c[3]), cl_cross, signed(log_uniform(2, 6)))
#: numbers that differ in sign only, and directions that are points
cl_again = st.builds(lambda ps, i: (ps[0], abs(ps[0][i]), ps[1], ps[2]), again_by(3).filter(lambda ps: far_enough(ps[2])),
                     st.integers(0, 1))
#: everything large
cl_large = st.builds(lambda c, e, i, j: ((c[0][0] + i * 10.0 ** e, c[0][1] + j * 10.0 ** e), c[1],
                                         (c[2][0] + i * 10.0 ** e, c[2][1] + j * 10.0 ** e), c[3]),
                     st.builds(lambda c, k: ((c[0][0] * k, c[0][1] * k), c[1] * k, (c[2][0] * k, c[2][1] * k),
                                             (c[3][0] * k, c[3][1] * k)), cl_cross, st.sampled_from([1.0, 1e3, 1e4])),
                     st.integers(2, 4), st.integers(-9, 9), st.integers(-9, 9))
cl = mix(cl_far, cl_any, cl_near, cl_cross, cl_cross, cl_start, cl_again, cl_large)


def line_check(p1, r, p2, v, note, labelled):
    kind, want, tol = line_circle_truth(p1, r, p2, v)
    what = "cl_int({!r}, {!r}, {!r}, {!r})".format(p1, r, p2, v)
    r = whole(r, not labelled)
    got = listed(call(cl_int, p1, r, p2, v), what)
    if labelled:
        note.label(kind or "undecided")
        note.count(kind is not None)
    n = math.hypot(*v)
    mag = magnitude(p1, p2) + r
    for s in got:
        off = abs((s.x - p2[0]) * v[1] - (s.y - p2[1]) * v[0]) / n
        require(off <= 1e-12 * (mag + math.hypot(s.x - p2[0], s.y - p2[1])), "{}: {!r} is {:.3g} off the line", what,
                xy(s), off)
        off = abs(math.hypot(s.x - p1[0], s.y - p1[1]) - r)
        require(off <= min(math.sqrt(1.1e-8 + 1e-14 * mag * mag), 1.1e-8 / r if r else 1) + 1e-12 * mag
                + (1e-14 * mag * mag / r if r else 0),
                "{}: {!r} is {:.3g} off the circle", what, xy(s), off)
    if kind is not None:
        match(got, want, tol, what)
    # and the ray
    rwhat = what.replace("cl_int", "cr_int")
    rgot = listed(call(cr_int, p1, r, p2, v), rwhat)
    if kind is None:
        return
    keep, unsure = [], False
    for w in want:
        dot = float((Fraction(w[0]) - Fraction(p2[0])) * Fraction(v[0]) + (Fraction(w[1]) - Fraction(p2[1])) * Fraction(v[1])) / n
        e = tol + 4 * EPS * (mag + abs(dot))
        if dot >= -1e-8 + e:
            keep.append(w)
            if labelled:
                note.label("at the start of the ray", dot <= 1e-8)
        elif dot > -1e-8 - e:
            unsure = True
        elif labelled:
            note.label("behind the ray")
    if not unsure:
        match(rgot, keep, tol, rwhat)


@check("C15", "circle_line", cl, quick=1500,
       rule="circles and lines or rays of all relative positions, down to 1e-12 from touching, axis-parallel and not, "
            "starting on, inside and outside the circle; each also with the direction reversed and scaled, the start "
            "moved along, and everything shifted, turned, mirrored and scaled; non-trivial: not in the band of a "
            "threshold")
def c15(case, note):
    p1, r, p2, v = case
    n = math.hypot(*v)
    first = True
    for what, (a, b) in images([p1, p2]):
        s = 2.0 if what == "doubled" else 1.0
        w = {"turned": (-v[1], v[0]), "mirrored": (v[0], -v[1])}.get(what, v)
        line_check(a, s * r, b, w, note, first)
        first = False
    line_check(p1, r, p2, (-v[0], -v[1]), note, False)
    for k in (4.0 if n < 1 else 0.25, 2.0 ** -17, 2.0 ** 17):
        line_check(p1, r, p2, (v[0] * k, v[1] * k), note, False)
    line_check(p1, r, (p2[0] + 0.5 * v[0], p2[1] + 0.5 * v[1]), v, note, False)
    line_check(p1, r, (p2[0] - v[0], p2[1] - v[1]), v, note, False)
    reuse([cl_int, cr_int], [(p1, r, p2, v), (p2, r, p1, v), (p1, r + 1, p2, v), (p1, r, p2, (-v[1], v[0]))])


# ---------------------------------------------------------------- C16

def lines_truth(p1, v1, p2, v2):
    """(kind, point, tolerance)"""
    F = Fraction
    c = F(v1[0]) * F(v2[1]) - F(v1[1]) * F(v2[0])
    n1, n2 = math.hypot(*v1), math.hypot(*v2)
    sine = abs(float(c)) / (n1 * n2)
    if abs(sine - 1e-8) <= 4 * EPS + 1e-16:
        return None, None, 0
    if sine < 1e-8:
        return "parallel", None, 0
    dx, dy = F(p2[0]) - F(p1[0]), F(p2[1]) - F(p1[1])
    t = (dx * F(v2[1]) - dy * F(v2[0])) / c
    w = (float(F(p1[0]) + t * F(v1[0])), float(F(p1[1]) + t * F(v1[1])))
    K = 1 / sine
    d = math.hypot(float(dx), float(dy))
    mag = magnitude(p1, p2)
    tol = 64 * EPS * ((K + K * K) * (d + 4 * EPS * mag) + mag + magnitude(w)) + 1e-13
    return "meet", w, tol


def ray_side(w, tol, p, v):
    """True when not behind, False when behind, None when at the tolerance"""
    F = Fraction
    dot = float((F(w[0]) - F(p[0])) * F(v[0]) + (F(w[1]) - F(p[1])) * F(v[1])) / math.hypot(*v)
    e = tol + 4 * EPS * (magnitude(w, p) + abs(dot))
    if dot >= -1e-8 + e:
        return True
    if dot <= -1e-8 - e:
        return False
    return None


def lines_check(p1, v1, p2, v2, note, labelled):
    kind, w, tol = lines_truth(p1, v1, p2, v2)
    args = "({!r}, {!r}, {!r}, {!r})".format(p1, v1, p2, v2)
    got = {fn.__name__: listed(call(fn, p1, v1, p2, v2), fn.__name__ + args) for fn in (ll_int, lr_int, rr_int)}
    if labelled:
        note.label(kind or "undecided")
    if kind is None:
        return
    if kind == "parallel":
        for name, g in got.items():
            require(g == [], "{}{} gives {!r} although the directions are parallel", name, args, g)
        return
    match(got["ll_int"], [w], tol, "ll_int" + args)
    s1, s2 = ray_side(w, tol, p1, v1), ray_side(w, tol, p2, v2)
    if s2 is not None:
        match(got["lr_int"], [w] if s2 else [], tol, "lr_int" + args)
    if s1 is False or s2 is False:
        match(got["rr_int"], [], tol, "rr_int" + args)
    elif s1 and s2:
        match(got["rr_int"], [w], tol, "rr_int" + args)
    if labelled:
        note.count()
        note.label("first ray {}, second ray {}".format(*["ahead" if s else "unsure" if s is None else "behind"
                                                          for s in (s1, s2)]))


int_dir = st.tuples(st.integers(-5, 5).map(float), st.integers(-5, 5).map(float)).filter(any)
ll_any = st.tuples(centre, direction, centre, direction)
ll_grid = st.tuples(small_point, int_dir, small_point, int_dir)
#: by the common point
ll_meet = st.builds(lambda m, v1, v2, t1, t2: ((m[0] - t1 * v1[0], m[1] - t1 * v1[1]), v1,
                                               (m[0] - t2 * v2[0], m[1] - t2 * v2[1]), v2),
                    centre, direction, direction, mix(st.floats(-5, 5), st.just(0.0)), mix(st.floats(-5, 5), st.just(0.0)))
#: nearly or exactly parallel
ll_par = st.builds(lambda p1, a, n1, p2, n2, t, back: (p1, polar((0.0, 0.0), n1, a), p2, polar(
    (0.0, 0.0), -n2 if back else n2, a + math.degrees(t))), centre, angles, length, centre, length, mix(st.just(0.0), signed(log_uniform(-12, -1))), st.booleans())
ll_par_int = st.builds(lambda p1, v, p2, k: (p1, v, p2, (k * v[0], k * v[1])), small_point, int_dir, small_point,
                       st.sampled_from([1, -1, 2, -3, 0.5]))
#: nearly horizontal or vertical
ll_flat = st.builds(lambda p1, v1, p2, n, t, up, swap: (lambda w: (p1, v1, p2, w) if not swap else (p2, w, p1, v1))(
    (t, n) if up else (n, t)), centre, direction, centre, signed(st.floats(0.01, 100)), signed(log_uniform(-12, -1)),
    st.booleans(), st.booleans())


#: started far away, or meeting there
ll_far = st.builds(lambda l, e, k: (along(l[0], -e, l[1]), l[1], along(l[2], k, l[3]), l[3]),
                   mix(ll_any, ll_meet), signed(log_uniform(1, 5)), signed(log_uniform(1, 5)))


#: directions that are points too
ll_again = again_by(4).filter(lambda vs: far_enough(vs[1]) and far_enough(vs[3]))


@check("C16", "lines", mix(ll_far, ll_any, ll_grid, ll_meet, ll_meet, ll_par, ll_par_int, ll_flat, ll_again), quick=1800,
       rule="pairs of lines or rays of all directions, nearly and exactly parallel, nearly and exactly axis-parallel, "
            "starting at and around the common point; each also exchanged, reversed, shifted, turned and mirrored; "
            "non-trivial: they meet")
def c16(case, note):
    p1, v1, p2, v2 = case
    first = True
    for what, (a, b) in images([p1, p2]):
        w1, w2 = [{"turned": (-v[1], v[0]), "mirrored": (v[0], -v[1])}.get(what, v) for v in (v1, v2)]
        lines_check(a, w1, b, w2, note, first)
        first = False
    lines_check(p2, v2, p1, v1, note, False)
    lines_check(p1, (-v1[0], -v1[1]), p2, v2, note, False)
    lines_check(p1, v1, p2, (-v2[0], -v2[1]), note, False)
    for k in (2.0 ** -15, 2.0 ** 15):
        lines_check(p1, (v1[0] * k, v1[1] * k), p2, (v2[0] * k, v2[1] * k), note, False)
    reuse([ll_int, lr_int, rr_int], [(p1, v1, p2, v2), (p2, v1, p1, v2), (p1, v2, p2, v1), (p1, v1, p2, (v2[1], -v2[0]))])


# ---------------------------------------------------------------- C17

def shape_of(m):
    return (m.num_rows, m.num_cols)


def apply(m, p):
    """Point through a 3x3 matrix"""
    e = m.elements
    return (e[0][0] * p[0] + e[0][1] * p[1] + e[0][2], e[1][0] * p[0] + e[1][1] * p[1] + e[1][2])


def near(a, b, tol):
    return abs(a - b) <= tol


def frame(a, b, scaled):
    """The frame of two points, or None, checked"""
    fn = make_hcs_scaled if scaled else make_hcs
    d = math.hypot(b[0] - a[0], b[1] - a[1])
    m = call(fn, a, b)
    what = "{}({!r}, {!r})".format(fn.__name__, a, b)
    if abs(d - 1e-8) < 1e-13:
        return None
    if d < 1e-8:
        require(m is None, "{} gives {!r} for coincident points", what, m)
        return None
    require(isinstance(m, Matrix) and shape_of(m) == (3, 3), "{} gives {!r}", what, m)
    e = m.elements
    n = 1.0 if scaled else d
    dx, dy = float(Fraction(b[0]) - Fraction(a[0])) / n, float(Fraction(b[1]) - Fraction(a[1])) / n
    want = [[dx, -dy, a[0]], [dy, dx, a[1]], [0, 0, 1]]
    tol = 1e-14 * (d if scaled else 1)
    for i in range(3):
        for j in range(3):
            require(near(e[i][j], want[i][j], tol if i < 2 and j < 2 else 0), "{} has {!r} in row {} column {}, expected "
                    "{!r}", what, e[i][j], i, j, want[i][j])
    return m


far_point = st.tuples(signed(log_uniform(2, 9)), signed(log_uniform(2, 9)))
anywhere = st.tuples(any_size, any_size)
near_pair = st.builds(lambda p, dx, dy: (p, (p[0] + dx, p[1] + dy)), point(100), tiny, tiny)


@check("C17", "frames", mix(st.tuples(point(100), point(100)), st.tuples(small_point, small_point), near_pair,
                            st.tuples(far_point, far_point), st.tuples(anywhere, anywhere), again_by(2)), quick=1200,
       rule="frames of pairs of points from 1e-12 to 1e12 apart, plain and scaled; non-trivial: the points are apart")
def c17_frames(case, note):
    a, b = case
    d = math.hypot(b[0] - a[0], b[1] - a[1])
    note.count(d > 1e-8)
    note.label("coincident", d < 1e-8)
    for scaled in (False, True):
        m = frame(a, b, scaled)
        if m is None:
            continue
        ln = d if scaled else 1.0
        require(near(math.hypot(m.elements[0][0], m.elements[1][0]), ln, 1e-13 * ln), "first axis has the wrong length")
        require(near(math.hypot(m.elements[0][1], m.elements[1][1]), ln, 1e-13 * ln), "second axis has the wrong length")
        m.elements[0][0] = 99.0
        frame(a, b, scaled)
    reuse([make_hcs, make_hcs_scaled], [(a, b), (b, a), (a, a), ((a[0], a[1] + 1), b)])


sizes = mix(st.floats(0.01, 100), st.integers(1, 9).map(float), log_uniform(-2, 2))
pair = st.builds(lambda a, ang, n: (a, polar(a, n, ang)), mix(small_point, point(100)), angles, sizes)
far_pair = st.builds(lambda a, ang, n: (a, polar(a, n, ang)), st.tuples(signed(log_uniform(2, 6)), signed(log_uniform(2, 6))), angles, sizes)


nudge = mix(st.just(0.0), signed(log_uniform(-9, -1)))


def nudged(p, dx, dy, t):
    """A pair of points moved and turned a little"""
    (ax, ay), (bx, by) = p
    return (ax + dx, ay + dy), (bx + dx - t * (by - ay), by + dy + t * (bx - ax))


#: frames that are equal or nearly so
close_pairs = st.builds(lambda f, g, n1, n2: (f, nudged(f, *n1), nudged(g, *n2)), pair, pair, st.tuples(nudge, nudge, nudge),
                        st.tuples(nudge, nudge, nudge))
three_pairs = mix(st.tuples(pair, pair, pair), st.tuples(pair, pair, pair), close_pairs,
                  mix(st.tuples(far_pair, far_pair, far_pair), st.tuples(pair, far_pair, pair)))


@check("C17", "transformations", st.builds(lambda p, l, s: p + (l, s), three_pairs,
                                           st.lists(point(100), min_size=2, max_size=4), st.booleans()), quick=1000,
       rule="transformations between three frames, some nearly equal or far away, plain or scaled, applied to frame vectors and up "
            "to four points; "
            "non-trivial: the frames differ in origin and direction")
def c17_transform(case, note):
    f, t, g, pts, scaled = case
    note.count(f[0] != t[0] and f[1] != t[1])
    note.label("scaled" if scaled else "unit")
    mats = [frame(p[0], p[1], scaled) for p in (f, t, g)]
    if any(m is None for m in mats):
        return
    mf, mt, mg = mats
    copies = [[list(r) for r in m.elements] for m in mats]
    with sut("cs_transform_matrix"):
        ft = cs_transform_matrix(mf, mt)
        tf = cs_transform_matrix(mt, mf)
        tg = cs_transform_matrix(mt, mg)
        fg = cs_transform_matrix(mf, mg)
    for m, c in zip(mats, copies):
        require(m.elements == c, "cs_transform_matrix changed a frame")
    lens = [math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in (f, t, g)]
    k = lens[1] / lens[0] if scaled else 1.0
    require(shape_of(ft) == (3, 3), "the transformation is {!r}", ft)
    e = ft.elements
    require(abs(e[2][0]) + abs(e[2][1]) + abs(e[2][2] - 1) <= 1e-11, "the last row is {!r}", e[2])
    # a similarity that keeps the orientation, with the right ratio
    tol = 1e-11 * (1 + k) * (1 + 1 / lens[0] if scaled else 1)
    require(near(e[0][0], e[1][1], tol) and near(e[0][1], -e[1][0], tol), "not a rotation with scaling: {!r}", e)
    require(near(math.hypot(e[0][0], e[1][0]), k, tol), "scales by {!r}, expected {!r}", math.hypot(e[0][0], e[1][0]), k)
    reach = max(200, magnitude(*(f + t + g)))
    note.label("far away", reach > 1e3)
    ptol = 1e-10 * (1 + k) * reach * (1 + 1 / lens[0] if scaled else 1)
    # the one frame onto the other
    ux, uy = ((f[1][0] - f[0][0]), (f[1][1] - f[0][1]))
    vx, vy = ((t[1][0] - t[0][0]), (t[1][1] - t[0][1]))
    if not scaled:
        ux, uy, vx, vy = ux / lens[0], uy / lens[0], vx / lens[1], vy / lens[1]
    for src, dst in (((f[0][0], f[0][1]), (t[0][0], t[0][1])),
                     ((f[0][0] + ux, f[0][1] + uy), (t[0][0] + vx, t[0][1] + vy)),
                     ((f[0][0] - uy, f[0][1] + ux), (t[0][0] - vy, t[0][1] + vx))):
        got = apply(ft, src)
        require(math.hypot(got[0] - dst[0], got[1] - dst[1]) <= ptol, "maps {!r} to {!r}, expected {!r}", src, got, dst)
    for p in pts:
        q = apply(ft, p)
        back = apply(tf, q)
        btol = ptol * (1 + (1 / k if scaled else 0)) * (1 + 1 / lens[1] if scaled else 1)
        require(math.hypot(back[0] - p[0], back[1] - p[1]) <= btol, "swapping the frames is not the inverse: {!r} to {!r} "
                "to {!r}", p, q, back)
        a, b = apply(tg, q), apply(fg, p)
        kg = lens[2] / lens[1] if scaled else 1.0
        gtol = ptol * (1 + kg) * (1 + 1 / lens[1] if scaled else 1) + 1e-10 * reach * (1 + lens[2] / lens[0] if scaled else 1)
        require(math.hypot(a[0] - b[0], a[1] - b[1]) <= gtol, "transformations do not compose: {!r} and {!r}", a, b)
    for p, q in itertools.combinations(pts, 2):
        a, b = apply(ft, p), apply(ft, q)
        d0, d1 = math.hypot(p[0] - q[0], p[1] - q[1]), math.hypot(a[0] - b[0], a[1] - b[1])
        require(abs(d1 - k * d0) <= ptol, "distance {!r} becomes {!r}, expected {!r}", d0, d1, k * d0)
