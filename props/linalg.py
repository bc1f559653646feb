"""C18-C20 matrices, vectors and tolerance comparisons"""

import math
import operator
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vkit import core
from vkit.core import Violation, check, refused, require, sut
from vkit.gen import Lcg, angle_deg, coord, log_uniform, mix, point, seeds, signed
from solver.geometry import Matrix, Scalar, Vector

EPS = 2.0 ** -53

core.CASE_NAMESPACE.update(np=np)


def rows(m):
    return [list(r) for r in m.elements]


def is_matrix(m, r, c, what):
    require(isinstance(m, Matrix), "{} is {!r}, not a matrix", what, m)
    got = rows(m)
    require(len(got) == r and all(len(x) == c for x in got), "{} is {!r}, expected {} by {}", what, got, r, c)
    return got


def product(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def sizes(a, b):
    return [[sum(abs(a[i][k] * b[k][j]) for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def transposed(a):
    return [list(r) for r in zip(*a)]


def copied(a):
    return [list(r) for r in a]


def close(got, want, tol):
    return all(abs(g - w) <= t for gr, wr, tr in zip(got, want, tol) for g, w, t in zip(gr, wr, tr))


def spoil(m):
    """Overwrites all elements of a matrix"""
    for r in m.elements:
        for j in range(len(r)):
            r[j] = 777.25


# ---------------------------------------------------------------- C18

element = mix(st.integers(-9, 9), st.integers(-9, 9), st.integers(-10 ** 20, 10 ** 20),
              st.integers(-2 ** 34, 2 ** 34), st.integers(-2 ** 62, 2 ** 62), st.fractions(-9, 9, max_denominator=7),
              st.floats(-1e3, 1e3, allow_nan=False, allow_subnormal=False), signed(log_uniform(-8, 8)))


def grid(elements, r, c):
    return st.lists(st.lists(elements, min_size=c, max_size=c), min_size=r, max_size=r)


def expand(r, c, seed, kind):
    g = Lcg(seed)
    if kind == 0:
        return [[g.below(19) - 9 for _ in range(c)] for _ in range(r)]
    return [[20 * g.unit() - 10 for _ in range(c)] for _ in range(r)]


dim = mix(st.integers(1, 4), st.integers(1, 7))
product_case = dim.flatmap(lambda r: dim.flatmap(lambda k: dim.flatmap(lambda c: st.tuples(
    grid(element, r, k), grid(element, k, c)))))


def check_product(a, b, what, exact=False):
    ca, cb = copied(a), copied(b)
    with sut(what):
        ma, mb = Matrix(ca), Matrix(cb)
        m = ma * mb
    got = is_matrix(m, len(a), len(b[0]), what)
    want = product([[Fraction(x) for x in r] for r in a], [[Fraction(x) for x in r] for r in b])
    big = sizes(a, b)
    exact = exact or all(isinstance(x, (int, Fraction)) for r in a + b for x in r)
    tol = [[0 if exact else (len(b) + 2) * 2 * EPS * float(x) for x in r] for r in big]
    require(close(got, want, tol), "{} is {!r}, expected {!r}", what, got, [[float(x) for x in r] for r in want])
    require(rows(ma) == a and rows(mb) == b, "{} changed an operand", what)
    require(ma.elements is not m.elements, "{} shares its elements", what)
    return ma, mb, m


@check("C18", "products", product_case, quick=700,
       rule="products of matrices of all shapes up to 7 by 7 over ints of any size, fractions and floats, with their "
            "transposes and identities; non-trivial: both factors have more than one row and column and differ from "
            "zero")
def c18_products(case, note):
    a, b = case
    note.count(min(len(a), len(a[0]), len(b), len(b[0])) > 1 and any(x for r in a for x in r) and any(x for r in b for x in r))
    note.label("row times column", len(a) == 1 and len(b[0]) == 1)
    note.label("column times row", len(b) == 1)
    ma, mb, m = check_product(a, b, "the product")
    before = rows(m)
    for mat, el in ((ma, a), (mb, b)):
        with sut("shape properties"):
            shape = (mat.num_rows, mat.num_cols, mat.num_elements, mat.num_dim)
        want = (len(el), len(el[0]), len(el) * len(el[0]), 2 if len(el) > 1 and len(el[0]) > 1 else 1)
        require(shape == want, "rows, columns, elements and dimensions of {!r} are {!r}, expected {!r}", el, shape, want)
        with sut("transpose"):
            t = mat.transpose()
        require(is_matrix(t, len(el[0]), len(el), "the transpose") == transposed(el), "the transpose of {!r} is {!r}", el,
                rows(t))
        with sut("transposing back"):
            require(rows(t.transpose()) == el, "the transpose of the transpose of {!r} is {!r}", el, rows(t.transpose()))
        require(rows(mat) == el, "transposing changed the matrix")
        spoil(t)
        require(rows(mat) == el, "the transpose shares elements with the matrix")
        # identity on either side
        with sut("identity"):
            left, right = Matrix.identity(len(el)), Matrix.identity(len(el[0]))
            li, ri = left * mat, mat * right
        big = [[float(abs(x)) for x in r] for r in el]
        for what, i in (("identity times", li), ("times identity", ri)):
            require(close(is_matrix(i, len(el), len(el[0]), what), el, [[4 * EPS * x for x in r] for r in big]),
                    "{} {!r} is {!r}", what, el, rows(i))
    # the product does not depend on its operands any more, nor they on it
    spoil(ma)
    require(rows(m) == before, "changing a factor changed the product")
    spoil(m)
    require(rows(mb) == b, "changing the product changed a factor")
    # order of transposition
    with sut("transposes and products"):
        l = (Matrix(copied(a)) * Matrix(copied(b))).transpose()
        r = Matrix(copied(b)).transpose() * Matrix(copied(a)).transpose()
    tol = [[4 * (len(b) + 2) * EPS * float(x) for x in row] for row in transposed(sizes(a, b))]
    require(close(rows(l), rows(r), tol), "(AB)' is {!r} but B'A' is {!r}", rows(l), rows(r))
    if len(a) != len(b[0]):
        refused("multiplying {} by {} with {} by {}".format(len(b), len(b[0]), len(a), len(a[0])),
                lambda: Matrix(copied(b)) * Matrix(copied(a)))
        note.label("mismatch refused")


@check("C18", "large", st.tuples(st.integers(1, 400), st.integers(1, 4), st.integers(1, 4), seeds, st.integers(0, 1)),
       quick=120, rule="products with up to 400 columns times rows; non-trivial: more than 50")
def c18_large(case, note):
    k, r, c, seed, kind = case
    note.count(k > 50)
    a, b = expand(r, k, seed, kind), expand(k, c, seed + 1, kind)
    check_product(a, b, "the product", False)
    with sut("identity"):
        i = Matrix.identity(k % 60 + 1)
    n = k % 60 + 1
    require(is_matrix(i, n, n, "the identity") == [[1.0 if p == q else 0.0 for q in range(n)] for p in range(n)],
            "the identity is wrong")
    i.elements[0][0] = 5.0
    require(all(i.elements[q][0] == 0.0 for q in range(1, n)), "the rows of the identity are shared")
    with sut("identity"):
        require(rows(Matrix.identity(n))[0][0] == 1.0, "identities share their elements")
    if k + 1 != r:
        refused("a mismatched product", lambda: Matrix(expand(r, k + 1, seed, kind)) * Matrix(copied(b)))


#: magnitudes of whole matrices
scale = mix(st.sampled_from([10, 1000, 10 ** 6, 10 ** 9, 2.0 ** -20, 1e-9]), log_uniform(-9, 9))
solve_case = st.integers(1, 7).flatmap(lambda n: st.tuples(
    grid(mix(st.floats(-10, 10), st.integers(-5, 5)), n, n),
    st.lists(st.integers(0, n - 1), min_size=n, max_size=n), st.sampled_from([1, 1, -1, -2, 0.5]),
    st.integers(1, 5).flatmap(lambda c: grid(mix(st.floats(-100, 100), st.integers(-9, 9)), n, c)),
    st.tuples(mix(st.just(None), scale), mix(st.just(None), scale))))


@check("C18", "solve", solve_case, quick=700,
       rule="inverses and linear systems of well-conditioned square matrices up to 7 by 7 of all magnitudes, rows "
            "shuffled, with up to 5 right hand sides; non-trivial: at least 2 by 2")
def c18_solve(case, note):
    a, order, s, b, (sa, sb) = case
    n = len(a)
    note.count(n > 1)
    a = copied(a)
    for i in range(n):
        # strictly diagonally dominant
        a[i][i] = (s if abs(s) >= 1 else 1) * (sum(abs(x) for j, x in enumerate(a[i]) if j != i) + 1 + abs(a[i][i]))
    if s == 0.5:
        a = [[x * s for x in r] for r in a]
    # shuffled rows: pivoting is needed
    perm = sorted(range(n), key=lambda i: (order[i], i))
    a = [a[i] for i in perm]
    if sa is not None:
        a = [[x * sa for x in r] for r in a]
    if sb is not None:
        b = [[x * sb for x in r] for r in b]
    largest = max(abs(x) for r in a for x in r)
    note.label("large elements", largest > 1e4)
    note.label("small elements", largest < 1e-4)
    ma, mb = Matrix(copied(a)), Matrix(copied(b))
    with sut("solve"):
        x = ma.solve(mb)
    gx = is_matrix(x, n, len(b[0]), "the solution")
    res = product(a, gx)
    # backward stable: each column to the size of the whole system
    tol = [[1e-11 * (n * largest * max(abs(g[j]) for g in gx) + abs(w)) + 1e-300 for j, w in enumerate(wr)] for wr in b]
    require(close(res, b, tol), "the solution of {!r} x = {!r} is {!r}, which gives {!r}", a, b, gx, res)
    with sut("inverse"):
        inv = ma.inverse()
    gi = is_matrix(inv, n, n, "the inverse")
    ident = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for what, l, r in (("A times its inverse", a, gi), ("the inverse times A", gi, a)):
        res = product(l, r)
        require(close(res, ident, [[1e-11 * (1 + t) for t in tr] for tr in sizes(l, r)]), "{} is {!r}", what, res)
    require(rows(ma) == a and rows(mb) == b, "solving changed an operand")
    spoil(ma)
    spoil(mb)
    require(rows(x) == gx and rows(inv) == gi, "the results depend on their operands")
    if n == 2:
        note.label("vector right hand side")
        ma = Matrix(copied(a))
        v = Vector(b[0][0], b[1][0])
        with sut("solve for a vector"):
            x = ma.solve(v)
        gx = is_matrix(x, 2, 1, "the solution")
        res = product(a, gx)
        require(close(res, [[b[0][0]], [b[1][0]]], [[1e-11 * (2 * largest * max(abs(g[0]) for g in gx) + abs(r[0])) + 1e-300]
                                                     for r in b]), "the vector solution gives {!r}", res)
        with sut("matrix times vector"):
            p = Matrix(copied(a)) * v
        require(close(is_matrix(p, 2, 1, "matrix times vector"), product(a, [[v.x], [v.y]]),
                      [[1e-14 * largest * (abs(v.x) + abs(v.y))]] * 2), "matrix times vector is {!r}", rows(p))


@check("C18", "wide", st.tuples(seeds, st.integers(8, 45), st.integers(1, 12)), quick=12, thorough=300,
       rule="products, transposes, inverses and linear systems of square matrices from 8 to 45 rows; all non-trivial")
def c18_wide(case, note):
    seed, n, c = case
    r = Lcg(seed)
    a = [[20 * r.unit() - 10 for _ in range(n)] for _ in range(n)]
    for i in range(n):
        a[i][i] = (2 * r.below(2) - 1) * (sum(map(abs, a[i])) + 1)
    for i in range(n - 1, 0, -1):
        j = r.below(i + 1)
        a[i], a[j] = a[j], a[i]
    b = [[200 * r.unit() - 100 for _ in range(c)] for _ in range(n)]
    note.count()
    ma, mb = Matrix(copied(a)), Matrix(copied(b))
    with sut("solve"):
        x = ma.solve(mb)
    gx = is_matrix(x, n, c, "the solution")
    tol = [[1e-10 * (1 + t + abs(w)) for t, w in zip(tr, wr)] for tr, wr in zip(sizes(a, gx), b)]
    require(close(product(a, gx), b, tol), "the solution of a system of {} equations does not solve it", n)
    with sut("inverse"):
        inv = ma.inverse()
    gi = is_matrix(inv, n, n, "the inverse")
    ident = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for what, l, r_ in (("A times its inverse", a, gi), ("the inverse times A", gi, a)):
        require(close(product(l, r_), ident, [[1e-10 * (1 + t) for t in tr] for tr in sizes(l, r_)]), "{} is no identity "
                "for {} rows", what, n)
    with sut("products"):
        p, t, s = ma * mb, ma.transpose(), str(ma)
    want = product(a, b)
    require(close(is_matrix(p, n, c, "the product"), want, [[1e-12 * x for x in row] for row in sizes(a, b)]),
            "the product of {} by {} and {} by {} is wrong", n, n, n, c)
    require(is_matrix(t, n, n, "the transpose") == transposed(a), "the transpose of {} by {} is wrong", n, n)
    require((ma.num_rows, ma.num_cols, ma.num_elements, ma.num_dim) == (n, n, n * n, 2), "the shape is wrong")
    require(rows(ma) == a and rows(mb) == b, "solving changed an operand")
    with sut("round"):
        ma.round(2)
    require(rows(ma) == [[round(v, 2) for v in row] for row in a], "rounding {} by {} is wrong", n, n)


change = st.tuples(st.sampled_from(["element", "row", "elements", "round", "none"]), st.integers(0, 6), st.integers(0, 6),
                   element)


@check("C18", "changes", st.tuples(product_case, st.lists(change, min_size=1, max_size=4), st.booleans()), quick=400,
       rule="matrices that are used (shape, transpose, product, inverse, text), changed element by element, by row, as a "
            "whole or by rounding, and used again: all answers are those of a new matrix with the same elements; "
            "non-trivial: a change other than rounding")
def c18_changes(case, note):
    (a, b), ops, square = case
    if square:
        n = min(len(a), len(a[0]))
        a = [[r[j] if i != j else 4000 + abs(r[j]) for j in range(n)] for i, r in enumerate(a[:n])]
        a = [[float(x) if abs(x) < 1e3 or i == j else float(j - i) for j, x in enumerate(r)] for i, r in enumerate(a)]
    note.count(any(o[0] in ("element", "row", "elements") for o in ops))

    def use(m, inv):
        t = m.transpose()
        out = [m.num_rows, m.num_cols, m.num_elements, m.num_dim, rows(t), rows(m * t), rows(t * m), str(m), repr(m)]
        if square and np.linalg.cond(np.array(rows(m), dtype=float)) < 1e6:
            inv += [x for r in rows(m.inverse()) for x in r]
            inv += [x for r in rows(m.solve(Matrix.identity(m.num_rows))) for x in r]
        return out

    with sut("a matrix"):
        m = Matrix(copied(a))
        use(m, [])
    for what, i, j, x in ops:
        i, j = i % len(a), j % len(a[0])
        x = float(x) if square else x
        with sut("changing a matrix"):
            if what == "element":
                a[i][j] = x
                m.elements[i][j] = x
            elif what == "row":
                a[i] = [x + k for k in range(len(a[0]))]
                m.elements[i] = list(a[i])
            elif what == "elements":
                a = copied(b) if not square else [[float(y) for y in r] for r in transposed(a)]
                m.elements = copied(a)
            elif what == "round":
                m.round(3)
                a = rows(m)
        with sut("using a changed matrix"):
            gi, wi = [], []
            got = use(m, gi)
            want = use(Matrix(copied(a)), wi)
        # solutions may differ in the last bits
        require(got == want and len(gi) == len(wi) and all(abs(g - w) <= 1e-7 * max(map(abs, wi)) for g, w in zip(gi, wi)),
                "a matrix changed to {!r} by {!r} answers {!r}, but a new one {!r}", a, what, got + gi, want + wi)
    require(rows(m) == a, "using a matrix changed it")


@check("C18", "refusals", dim.flatmap(lambda r: dim.flatmap(lambda c: grid(st.integers(-9, 9), r, c))), quick=150,
       rule="inverses of matrices that are not square; non-trivial: not square")
def c18_refuse(case, note):
    if len(case) == len(case[0]):
        return
    note.count()
    m = Matrix(copied(case))
    refused("the inverse of a {} by {} matrix".format(len(case), len(case[0])), m.inverse)
    require(rows(m) == case, "refusing the inverse changed the matrix")


@check("C18", "rounding", st.tuples(dim.flatmap(lambda r: dim.flatmap(lambda c: grid(
    mix(st.floats(-1e3, 1e3), log_uniform(-7, 3), st.integers(-9, 9)), r, c))), mix(st.none(), st.integers(0, 8),
                                                                                    st.integers(-2, 2)), st.booleans()),
       quick=500, rule="in-place rounding to -2 to 8 decimals or the default; non-trivial: some element changes")
def c18_round(case, note):
    a, p, vector = case
    if vector:
        a = [[float(a[0][0])], [float(a[-1][-1])]]
    with sut("round"):
        m = Vector(a[0][0], a[1][0]) if vector else Matrix(copied(a))
        t = m.transpose()
        m.round() if p is None else m.round(p)
    want = [[round(x, 4 if p is None else p) for x in r] for r in a]
    note.count(want != a)
    require(rows(m) == want, "rounding {!r} to {!r} gives {!r}, expected {!r}", a, p, rows(m), want)
    require(rows(t) == transposed(a), "rounding a matrix changed its transpose")


# ---------------------------------------------------------------- C19

number = mix(st.integers(-9, 9), coord(1000), coord(1000), st.integers(-10 ** 6, 10 ** 6), signed(log_uniform(-8, 6)),
             mix(st.just(-0.0), st.integers(-10 ** 12, 10 ** 12), signed(log_uniform(6, 15)), signed(log_uniform(-20, -8))))
vec = mix(st.tuples(number, number), st.tuples(st.integers(-3, 3), st.integers(-3, 3)))


def xy(v, what="result"):
    require(isinstance(v, Vector), "the {} is {!r}, not a vector", what, v)
    require(isinstance(v.x, float) and isinstance(v.y, float), "the {} has coordinates {!r}, {!r}", what, v.x, v.y)
    return (v.x, v.y)


OPS = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b)]


def agrees(name, got, want):
    """Exactly, but for the last bits of quotients"""
    if name != "/":
        return got == want
    return all(g == w or abs(g - w) <= 4 * EPS * abs(w) + 1e-322 for g, w in zip(got, want))


def iop(name, a, b):
    if name == "+":
        a += b
    elif name == "-":
        a -= b
    elif name == "*":
        a *= b
    else:
        a /= b
    return a


#: numbers of other types
other_number = mix(st.builds(Fraction, st.integers(-40, 40), st.integers(1, 9)), st.integers(-9, 9).map(np.int64),
                   st.integers(-99, 99).map(lambda n: np.float64(n / 4.0)), st.booleans())


@check("C19", "arithmetic", st.tuples(vec, mix(vec, vec, number, other_number), st.booleans()), quick=1500,
       rule="all four operations, in place and not, on vectors with vectors and numbers, and negation; non-trivial: the "
            "operand is a vector with two different coordinates")
def c19_arith(case, note):
    p, q, same = case
    scalar = not isinstance(q, tuple)
    note.count(not scalar and q[0] != q[1])
    note.label("number" if scalar else "vector")
    for name, fn in OPS:
        with sut("Vector"):
            a = Vector(*p)
            b = q if scalar else Vector(*q)
        x0, y0 = float(p[0]), float(p[1])
        if same:
            b, bx, by = a, x0, y0
        elif scalar:
            bx = by = q
        else:
            bx, by = float(q[0]), float(q[1])
        if name == "/" and (bx == 0 or by == 0):
            continue
        want = (float(fn(x0, bx)), float(fn(y0, by)))
        what = "{!r} {} {!r}".format((x0, y0), name, q if not same else "itself")
        with sut(what):
            r = fn(a, b)
        require(agrees(name, xy(r, what), want), "{} is {!r}, expected {!r}", what, xy(r), want)
        require(xy(a) == (x0, y0), "{} changed its left operand to {!r}", what, xy(a))
        if not scalar and not same:
            require(xy(b) == (bx, by), "{} changed its right operand to {!r}", what, xy(b))
        require(r is not a and r is not b, "{} is not a new vector", what)
        alias = a
        with sut(what + " in place"):
            alias = iop(name, alias, b)
        require(agrees(name, xy(alias), want), "{} in place is {!r}, expected {!r}", what, xy(alias), want)
        require(xy(a) == (x0, y0), "{} in place changed another reference to the operand", what)
        with sut("setting coordinates"):
            r.x, r.y = 5, 6
        require(xy(a) == (x0, y0), "changing the result of {} changed its operand", what)
    with sut("negation"):
        a = Vector(*p)
        r = -a
    require(xy(r) == (-float(p[0]), -float(p[1])) and xy(a) == (float(p[0]), float(p[1])) and r is not a,
            "the negative of {!r} is {!r}", p, xy(r))


def ulps(x, n):
    return n * 2.0 ** -52 * abs(x) + 1e-300


@check("C19", "measures", st.tuples(vec, vec, angle_deg, angle_deg), quick=1500,
       rule="dot products, lengths, azimuths and rotations by angles in degrees, also composed; non-trivial: the vector "
            "and an angle are not zero")
def c19_measures(case, note):
    p, q, t1, t2 = case
    note.count(any(p) and t1)
    with sut("measuring"):
        a, b = Vector(*p), Vector(*q)
        dot, back, length, az = a.dot(b), b.dot(a), a.length, a.azimuth
    F = Fraction
    want = F(a.x) * F(b.x) + F(a.y) * F(b.y)
    tol = 4 * EPS * float(abs(F(a.x) * F(b.x)) + abs(F(a.y) * F(b.y)))
    require(abs(F(dot) - want) <= tol and abs(F(back) - want) <= tol, "the dot product of {!r} and {!r} is {!r} and {!r}, "
            "expected {!r}", p, q, dot, back, float(want))
    n = math.hypot(*p)
    require(abs(length - n) <= ulps(n, 4), "the length of {!r} is {!r}, expected {!r}", p, length, n)
    if any(p):
        w = math.degrees(math.atan2(float(p[1]), float(p[0])))
        require(abs(az - w) <= ulps(w, 4), "the azimuth of {!r} is {!r}, expected {!r}", p, az, w)
    with sut("rotating"):
        r = a.rotate(t1)
        rr = r.rotate(t2)
        both = a.rotate(t1 + t2)
    tol = 1e-14 * n * (1 + abs(t1) / 360)
    c, s = math.cos(math.radians(t1)), math.sin(math.radians(t1))
    w = (p[0] * c - p[1] * s, p[0] * s + p[1] * c)
    g = xy(r, "rotation")
    require(math.hypot(g[0] - w[0], g[1] - w[1]) <= tol, "{!r} rotated by {!r} is {!r}, expected {!r}", p, t1, g, w)
    require(abs(r.length - n) <= tol, "rotating {!r} by {!r} changed its length from {!r} to {!r}", p, t1, n, r.length)
    g, h = xy(rr), xy(both)
    require(math.hypot(g[0] - h[0], g[1] - h[1]) <= 1e-13 * n * (1 + (abs(t1) + abs(t2)) / 100), "rotations of {!r} by "
            "{!r} and {!r} do not add up: {!r} and {!r}", p, t1, t2, g, h)
    if n > 1e-6:
        d = (r.azimuth - a.azimuth - t1) % 360.0
        require(min(d, 360 - d) <= 1e-9, "rotating {!r} by {!r} degrees shifts its azimuth from {!r} to {!r}", p, t1,
                a.azimuth, r.azimuth)
    require(xy(a) == (float(p[0]), float(p[1])) and xy(b) == (float(q[0]), float(q[1])), "measuring changed the vector")
    require(r is not a, "a rotation is not a new vector")


#: the whole range of numbers
any_number = mix(signed(log_uniform(-300, 300)), signed(log_uniform(-12, 12)), st.floats(allow_nan=False,
                                                                                    allow_infinity=False),
                 st.sampled_from([0.0, -0.0, 5e-324, 2.2e-308, 1.7e308, 1.0]))


@check("C19", "extremes", st.tuples(st.tuples(any_number, any_number), st.tuples(any_number, any_number),
                                    mix(st.none(), st.none(), signed(log_uniform(-3, 3)))), quick=900,
       rule="vectors of coordinates of any magnitude, sometimes both of a similar one; non-trivial: both are non-zero and "
            "their squares are not finite and normal")
def c19_extremes(case, note):
    p, q, ratio = case
    if ratio is not None:
        p = (p[0], p[0] * ratio if abs(p[0]) < 1e300 else p[0])
    note.count(all(p) and not all(1e-290 < abs(c) * abs(c) < 1e300 for c in p))
    with sut("Vector"):
        a, b = Vector(*p), Vector(*q)
    with sut("measuring"):
        length, az = a.length, a.azimuth
        plus, minus, neg = a + b, a - b, -a
    n = math.hypot(*p)
    require(length == n or abs(length - n) <= 4 * 2.0 ** -52 * n + 1e-322, "the length of {!r} is {!r}, expected {!r}", p,
            length, n)
    if any(p):
        w = math.degrees(math.atan2(p[1], p[0]))
        require(abs(az - w) <= ulps(w, 4), "the azimuth of {!r} is {!r}, expected {!r}", p, az, w)
    require(xy(plus) == (p[0] + q[0], p[1] + q[1]) and xy(minus) == (p[0] - q[0], p[1] - q[1])
            and xy(neg) == (-p[0], -p[1]), "{!r} and {!r} give {!r}, {!r} and {!r}", p, q, xy(plus), xy(minus), xy(neg))
    for name, fn in (("==", operator.eq), ("<", operator.lt), (">", operator.gt), ("<=", operator.le), (">=", operator.ge)):
        with sut(name):
            got = fn(a, b)
        require(got == (fn(p[0], q[0]) and fn(p[1], q[1])), "{!r} {} {!r} is {!r}", p, name, q, got)


@check("C19", "changes", st.tuples(vec, st.lists(st.tuples(st.sampled_from(["x", "y", "both", "elements", "iadd", "imul",
                                                                            "round"]), number, number), min_size=1, max_size=5),
                                vec, angle_deg), quick=700,
       rule="vectors that are measured, changed and measured again: all answers are those of a new vector with the same "
            "coordinates; non-trivial: at least two changes")
def c19_changes(case, note):
    p, ops, q, t = case
    note.count(len(ops) > 1)

    def use(v):
        w = Vector(*q)
        return [v.x, v.y, v.length, v.azimuth, v.dot(w), w.dot(v), v.dot(v), xy(v + w), xy(w - v), xy(v * w), xy(-v),
                xy(v.rotate(t)), v == w, v < w, v >= w, v.is_positive(), v.is_negative(), str(v), list(v), v[0], v[1],
                rows(v.transpose()), v.num_rows, v.num_cols, v.tol_eq(w), xy(Vector(v))]

    with sut("a vector"):
        v = Vector(*p)
        use(v)
        x, y = v.x, v.y
    for what, a, b in ops:
        a, b = float(a), float(b)
        with sut("changing a vector"):
            if what == "x":
                v.x = x = a
            elif what == "y":
                v.y = y = b
            elif what == "both":
                v.x, v.y = x, y = a, b
            elif what == "elements":
                v.elements = [[a], [b]]
                x, y = a, b
            elif what == "iadd":
                v += Vector(a, b)
                x, y = x + a, y + b
            elif what == "imul":
                if abs(x) < 1e50 and abs(y) < 1e50:
                    v *= a
                    x, y = x * a, y * a
            else:
                v.round(2)
                x, y = round(x, 2), round(y, 2)
        with sut("measuring a changed vector"):
            got, want = use(v), use(Vector(x, y))
        require(got == want, "a vector changed to {!r} ({}) measures {!r}, but a new one {!r}", (x, y), what, got, want)


#: coordinates of all sizes, also together
extreme = mix(signed(st.floats(0, 1e300, allow_subnormal=False)), signed(log_uniform(-300, 300)), signed(log_uniform(-20, 20)),
              st.sampled_from([0.0, -0.0]))


def neighbour(x, steps):
    """The float so many steps away, or nearly so far from zero"""
    for _ in range(abs(steps)):
        x = math.nextafter(float(x), math.inf if steps > 0 else -math.inf)
    return x


nearby = st.builds(lambda p, i, j: (p, (neighbour(p[0], i), neighbour(p[1], j))), mix(vec, st.tuples(extreme, extreme)),
                   st.integers(-2, 2), st.integers(-2, 2))
minute = st.builds(lambda p, d, e: (p, (p[0] + d, p[1] + e)), vec, mix(st.just(0.0), signed(log_uniform(-20, -7))),
                   mix(st.just(0.0), signed(log_uniform(-20, -7))))
compared = mix(st.tuples(vec, vec), st.tuples(vec, vec), st.tuples(st.tuples(extreme, extreme), st.tuples(extreme, extreme)),
               nearby, minute)


@check("C19", "comparisons", st.tuples(compared, st.sampled_from([0, 0, 1, 2, 3])).map(lambda t: t[0] + t[1:]), quick=1800,
       rule="all six comparisons and the sign tests, also of vectors that differ in the last bits and of coordinates of "
            "very different sizes; non-trivial: the vectors share at most one coordinate")
def c19_compare(case, note):
    p, q, share = case
    if share & 1:
        q = (p[0], q[1])
    if share & 2:
        q = (q[0], p[1])
    note.count(share != 3)
    note.label("shared coordinates: {}".format((p[0] == q[0]) + (p[1] == q[1])))
    with sut("comparing"):
        a, b = Vector(*p), Vector(*q)
        got = (a == b, a != b, a < b, a > b, a <= b, a >= b, a.is_positive(), a.is_negative())
    (x, y), (u, v) = [tuple(map(float, t)) for t in (p, q)]
    want = (x == u and y == v, x != u or y != v, x < u and y < v, x > u and y > v, x <= u and y <= v, x >= u and y >= v,
            x >= 0 and y >= 0, x < 0 and y < 0)
    names = ("==", "!=", "<", ">", "<=", ">=", "is_positive", "is_negative")
    for n, g, w in zip(names, got, want):
        require(g is w or (type(g).__name__ == "bool_" and bool(g) == w), "{!r} {} {!r} is {!r}, expected {!r}", p, n, q,
                g, w)
    require(xy(a) == (x, y) and xy(b) == (u, v), "comparing changed a vector")


KINDS = ["int", "float", "text", "padded text", "fraction", "bool", "numpy", "vector", "matrix", "set"]


@check("C19", "building", st.tuples(st.sampled_from(KINDS), vec, vec, st.tuples(*[mix(st.none(), st.integers(-3, 3))] * 3)),
       quick=1200,
       rule="vectors from numbers, text, other vectors and matrices, changed afterwards on either side, read by index, "
            "slice and attribute; non-trivial: the coordinates differ")
def c19_build(case, note):
    kind, p, q, (lo, hi, step) = case
    note.label(kind)
    x, y = float(p[0]), float(p[1])
    src = None
    with sut("building a vector from {}".format(kind)):
        if kind == "int":
            x, y = float(int(x)), float(int(y))
            v = Vector(int(x), int(y))
        elif kind == "float":
            v = Vector(x, y)
        elif kind == "text":
            v = Vector(repr(x), repr(y))
        elif kind == "padded text":
            v = Vector(" {!r} ".format(x), "{!r}\n".format(y))
        elif kind == "fraction":
            v = Vector(Fraction(x), Fraction(y))
        elif kind == "bool":
            x, y = float(x > 0), float(y > 0)
            v = Vector(x > 0, y > 0)
        elif kind == "numpy":
            v = Vector(np.float64(x), np.float64(y))
        elif kind == "vector":
            src = Vector(x, y)
            v = Vector(src)
        elif kind == "matrix":
            src = Matrix([[p[0]], [p[1]]])
            v = Vector(src)
        else:
            v = Vector(0, 0)
            v.x = repr(x)
            v.y = p[1]
    note.count(x != y)

    def same(v, x, y, what):
        with sut("reading a vector"):
            got = (xy(v), v[0], v[1], v[-1], v[-2], list(v), v[:], rows(v), v.elements[0][0])
        want = ((x, y), x, y, y, x, [x, y], [x, y], [[x], [y]], x)
        require(got == want, "{}: the vector reads {!r}, expected {!r}", what, got, want)
        if step != 0:
            with sut("slicing"):
                s = v[lo:hi:step]
            require(list(s) == [x, y][lo:hi:step], "{}: [{}:{}:{}] of {!r} is {!r}", what, lo, hi, step, (x, y), s)
        refused("index 2 of a vector", lambda: v[2], (IndexError,))

    same(v, x, y, "built from " + kind)
    require((v.num_rows, v.num_cols) == (2, 1), "a vector has shape {!r}", (v.num_rows, v.num_cols))
    if src is not None:
        src.elements[0][0] = 55.5
        same(v, x, y, "after changing what it was built from")
        src.elements[0][0] = x
        with sut("setting a coordinate"):
            v.y = q[1]
        same(v, x, float(q[1]), "after setting y")
        require(rows(src) == [[x], [y]], "setting a coordinate changed the {} it was built from", kind)
    with sut("setting a coordinate"):
        w = Vector(v)
        v.x = q[0]
        v.y = q[1]
    same(v, float(q[0]), float(q[1]), "after setting x and y")
    same(w, x, float(q[1]) if src is not None else y, "copy after setting x and y")
    with sut("origin"):
        o = Vector.origin()
        same(o, 0.0, 0.0, "origin")
        o.x = 3
        require(xy(Vector.origin()) == (0.0, 0.0), "changing an origin changed the next one")


@check("C19", "refusals", st.tuples(mix(st.integers(1, 3), st.integers(1, 5)), st.integers(1, 5)), quick=60,
       rule="matrices of all shapes up to 5 by 5 as vectors; non-trivial: not 2 by 1")
def c19_refuse(case, note):
    r, c = case
    m = Matrix([[i + j for j in range(c)] for i in range(r)])
    if case == (2, 1):
        with sut("Vector"):
            require(xy(Vector(m)) == (0.0, 1.0), "wrong vector")
        return
    note.count()
    refused("a vector from a {} by {} matrix".format(r, c), lambda: Vector(m))
    refused("a vector from the text 'x'", lambda: Vector("x", "1"), (ValueError,))


# ---------------------------------------------------------------- C20

class Loose(Scalar):
    """A user's own tolerances"""
    rel_tol = 0.25
    abs_tol = 0.5


tol_value = mix(st.none(), st.none(), st.sampled_from([0, 0.0, 0.25, 0.5, 1, 1e-8, 1e-5, 2]), log_uniform(-10, 1))
num = mix(st.integers(-20, 20), st.integers(-64, 64).map(lambda n: n / 16.0), signed(log_uniform(-10, 8)),
          st.fractions(-5, 5, max_denominator=8), st.integers(-10 ** 17, 10 ** 17), st.sampled_from([0, 0.0, -0.0]))


@st.composite
def tol_case(draw):
    where = draw(st.sampled_from(["call", "call", "keywords", "class", "subclass", "default"]))
    rel, ab = draw(tol_value), draw(tol_value)
    if where == "subclass":
        rel = ab = None
    if where == "default":
        rel = ab = None
    b = draw(num)
    er = {"subclass": Loose.rel_tol}.get(where, 1e-5 if rel is None else rel)
    ea = {"subclass": Loose.abs_tol}.get(where, 1e-8 if ab is None else ab)
    how = draw(st.sampled_from(["near", "near", "edge", "any", "same"]))
    if how == "any":
        a = draw(num)
    elif how == "same":
        a = b
    else:
        # close to the bound
        k = 1.0 if how == "edge" else draw(mix(st.floats(0, 2), st.sampled_from([0.9, 0.999, 1.001, 1.1])))
        a = float(b) + draw(st.sampled_from([1, -1])) * k * (ea + er * abs(float(b)))
    return (where, rel, ab, a, b, draw(st.sampled_from([0, 1, 2])))


def tol_truth(a, b, rel, ab):
    """Exact answer to |a - b| <= ab + rel * |b|, None when rounding decides"""
    F = Fraction
    fa, fb = float(a), float(b)
    diff = abs(F(a) - F(b))
    bound = F(ab) + F(rel) * abs(F(b))
    exact = (F(fa) == F(a) and F(fb) == F(b) and F(fa - fb) == F(fa) - F(fb) and F(rel * abs(fb)) == F(rel) * abs(F(fb))
             and F(ab + rel * abs(fb)) == bound)
    band = 0 if exact else 8 * EPS * float(diff + bound) + 2 * EPS * float(abs(F(a)) + abs(F(b))) * (
        0 if F(fa) == F(a) and F(fb) == F(b) else 1)
    if exact or abs(diff - bound) > band:
        return diff <= bound
    return None


@check("C20", "numbers", tol_case(), quick=2500,
       rule="pairs of ints, fractions and floats from equal to far apart, concentrated around the tolerance bound, with "
            "default, given (positionally or by keyword), class-wide and subclass tolerances, zero included; "
            "non-trivial: the numbers differ and rounding does not decide")
def c20_numbers(case, note):
    where, rel, ab, a, b, form = case
    er = 1e-5 if rel is None else rel
    ea = 1e-8 if ab is None else ab
    cls = Scalar
    args, kw = (), {}
    if where == "call":
        args = (rel, ab)
    elif where == "keywords":
        kw = {k: v for k, v in (("rel_tol", rel), ("abs_tol", ab)) if v is not None}
    elif where == "class":
        pass
    elif where == "subclass":
        cls, er, ea = Loose, Loose.rel_tol, Loose.abs_tol
    saved = (Scalar.rel_tol, Scalar.abs_tol)
    require(saved == (1e-5, 1e-8), "the default tolerances are {!r}", saved)
    try:
        if where == "class":
            if rel is not None:
                Scalar.rel_tol = rel
            if ab is not None:
                Scalar.abs_tol = ab
        with sut("comparing {!r} and {!r} ({})".format(a, b, case[:3])):
            eq = cls.tol_eq(a, b, *args, **kw)
            gt, lt = cls.tol_gt(a, b, *args, **kw), cls.tol_lt(a, b, *args, **kw)
            ge, le = cls.tol_ge(a, b, *args, **kw), cls.tol_le(a, b, *args, **kw)
            zero = cls.tol_zero(a, *args, **kw)
        require((Scalar.rel_tol, Scalar.abs_tol) == ((saved[0] if rel is None else rel, saved[1] if ab is None else ab)
                                                     if where == "class" else saved), "comparing changed the tolerances")
    finally:
        Scalar.rel_tol, Scalar.abs_tol = saved
    what = "{!r} and {!r} (relative {!r}, absolute {!r}, {})".format(a, b, er, ea, where)
    want = tol_truth(a, b, er, ea)
    note.label(where)
    note.label("undecided", want is None)
    note.label("equal" if want else "not equal")
    note.count(a != b and want is not None)
    if want is not None:
        require(bool(eq) == want, "{}: equal to tolerance is {!r}", what, eq)
    wz = tol_truth(a, 0, er, ea)
    if wz is not None:
        require(bool(zero) == wz, "{}: {!r} being zero to tolerance is {!r}", what, a, zero)
    require(bool(gt) + bool(lt) + bool(eq) == 1, "{}: greater {!r}, less {!r}, equal {!r}", what, gt, lt, eq)
    require(bool(gt) == (a > b and not eq), "{}: greater is {!r}", what, gt)
    require(bool(lt) == (a < b and not eq), "{}: less is {!r}", what, lt)
    require(bool(ge) == (a > b or bool(eq)), "{}: greater or equal is {!r}", what, ge)
    require(bool(le) == (a < b or bool(eq)), "{}: less or equal is {!r}", what, le)


@check("C20", "vectors", st.tuples(tol_case(), tol_case(), st.booleans(), st.booleans()), quick=1200,
       rule="pairs of vectors whose coordinates are equal, close to the tolerance bound or apart; non-trivial: exactly "
            "one coordinate is equal to tolerance")
def c20_vectors(case, note):
    (w1, rel, ab, a1, b1, _), (w2, _, _, a2, b2, _), keywords, swap = case
    a1, b1, a2, b2 = [float(x) for x in (a1, b1, a2, b2)]
    if w1 in ("class", "subclass", "default"):
        rel = ab = None
    er = 1e-5 if rel is None else rel
    ea = 1e-8 if ab is None else ab
    if swap:
        a1, b1, a2, b2 = a2, b2, a1, b1
    args = () if keywords else (rel, ab)
    kw = {k: v for k, v in (("rel_tol", rel), ("abs_tol", ab)) if v is not None} if keywords else {}
    with sut("comparing vectors"):
        p, q = Vector(a1, a2), Vector(b1, b2)
        eq = p.tol_eq(q, *args, **kw)
        gt, lt = p.tol_gt(q, *args, **kw), p.tol_lt(q, *args, **kw)
    t1, t2 = tol_truth(a1, b1, er, ea), tol_truth(a2, b2, er, ea)
    note.count(t1 is not None and t2 is not None and t1 != t2)
    what = "{!r} and {!r} (relative {!r}, absolute {!r})".format((a1, a2), (b1, b2), er, ea)
    if t1 is False or t2 is False:
        require(not eq, "{} are equal to tolerance", what)
    elif t1 and t2:
        require(bool(eq), "{} are not equal to tolerance", what)
        note.label("equal")
    require(bool(gt) == (a1 > b1 and a2 > b2 and not eq), "{}: greater is {!r}", what, gt)
    require(bool(lt) == (a1 < b1 and a2 < b2 and not eq), "{}: less is {!r}", what, lt)
