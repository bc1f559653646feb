"""Placements of three points, and what they exactly are"""

import math
from fractions import Fraction

from hypothesis import strategies as st

from vkit.gen import coord, log_uniform, mix, point, signed

CW, CCW, FLAT = "clockwise", "counter-clockwise", "flat"
ACUTE, OBTUSE, RIGHT, DEGENERATE = "acute", "obtuse", "right", "degenerate"

ABS = Fraction(1, 10 ** 8)          # the library's absolute tolerance
REL = Fraction(1, 10 ** 5)          # and relative one


def cross_exact(p1, p2, p3):
    """Doubled signed area, exactly; positive when counter-clockwise"""
    (x1, y1), (x2, y2), (x3, y3) = [(Fraction(x), Fraction(y)) for x, y in (p1, p2, p3)]
    return (x2 - x1) * (y3 - y2) - (y2 - y1) * (x3 - x2)


def spread(*pts):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return max(max(xs) - min(xs), max(ys) - min(ys))


def magnitude(*pts):
    return max(max(abs(p[0]), abs(p[1])) for p in pts)


def turn(p1, p2, p3):
    """Exact orientation, None within the rounding band around the tolerance"""
    c = cross_exact(p1, p2, p3)
    d = Fraction(spread(p1, p2, p3))
    m = Fraction(magnitude(p1, p2, p3))
    # the coordinate differences are rounded, and so are the two products and their sum
    band = Fraction(4, 10 ** 15) * d * d + Fraction(1, 10 ** 24)
    if abs(abs(c) - ABS) <= band:
        return None
    return FLAT if abs(c) < ABS else (CCW if c > 0 else CW)


def true_angle(p1, p2, p3):
    """Angle at p2 from p1 to p3, positive when p1, p2, p3 turn clockwise; from exact products"""
    ax, ay = Fraction(p1[0]) - Fraction(p2[0]), Fraction(p1[1]) - Fraction(p2[1])
    bx, by = Fraction(p3[0]) - Fraction(p2[0]), Fraction(p3[1]) - Fraction(p2[1])
    return math.atan2(float(ax * by - ay * bx), float(ax * bx + ay * by))


def arms(p1, p2, p3):
    return math.hypot(p1[0] - p2[0], p1[1] - p2[1]), math.hypot(p3[0] - p2[0], p3[1] - p2[1])


#: how far below or above a right angle is still a right angle
RIGHT_TOL = 1e-8 + 1e-5 * math.pi / 2


def corner(p1, p2, p3):
    """Acute, obtuse, right or degenerate; None when too close to a threshold"""
    a, b = arms(p1, p2, p3)
    for x in (a, b):
        if abs(x - 1e-8) < 1e-13:
            return None
    if a < 1e-8 or b < 1e-8:
        return DEGENERATE
    t = abs(true_angle(p1, p2, p3))
    for edge in (math.pi / 2 - RIGHT_TOL, math.pi / 2 + RIGHT_TOL):
        if abs(t - edge) < 1e-10 + 1e-15 * (magnitude(p1, p2, p3) / min(a, b)):
            return None
    if t < math.pi / 2 - RIGHT_TOL:
        return ACUTE
    if t > math.pi / 2 + RIGHT_TOL:
        return OBTUSE
    return RIGHT


def classify(p1, p2, p3):
    return turn(p1, p2, p3), corner(p1, p2, p3)


# ---------------------------------------------------------------- generators

def polar(c, r, deg):
    return (c[0] + r * math.cos(math.radians(deg)), c[1] + r * math.sin(math.radians(deg)))


angles = mix(st.floats(-180, 180), st.integers(-12, 12).map(lambda n: 15.0 * n), st.integers(-4, 4).map(lambda n: 45.0 * n))
lengths = mix(st.floats(0.1, 50), log_uniform(-4, 3), st.integers(1, 10).map(float))
tiny = signed(log_uniform(-12, 0))
small_point = st.tuples(st.integers(-5, 5).map(float), st.integers(-5, 5).map(float))

grid = st.tuples(small_point, small_point, small_point)
generic = st.tuples(point(1000), point(1000), point(100))
mid = mix(small_point, point(100), st.just((0.0, 0.0)))

#: by the angle at the middle point
by_angle = st.builds(lambda m, a, r1, t, r2: (polar(m, r1, a), m, polar(m, r2, a + t)), mid, angles, lengths, angles,
                     lengths)
#: nearly straight or nearly folded
near_line = st.builds(lambda m, a, r1, back, t, r2: (polar(m, r1, a), m, polar(m, r2, a + (180.0 if back else 0.0)
                                                                              + math.degrees(t))),
                      mid, angles, lengths, st.booleans(), tiny, lengths)
#: nearly right angles
near_right = st.builds(lambda m, a, r1, side, t, r2: (polar(m, r1, a), m, polar(m, r2, a + 90.0 * side
                                                                               + math.degrees(t))),
                       mid, angles, lengths, st.sampled_from([-1, 1]),
                       mix(signed(log_uniform(-6, -3)), signed(log_uniform(-6, 0)), st.just(0.0)), lengths)
#: area close to the tolerance
near_area = st.builds(lambda m, a, r1, k, back: (polar(m, r1, a), m, polar(polar(m, r1 * (-1 if back else 1), a),
                                                                          k * 1e-8 / r1, a + 90)),
                      mid, angles, st.floats(0.01, 20), signed(st.floats(0.2, 3)), st.booleans())
#: exactly collinear with integer steps
collinear = st.builds(lambda p, d, i, j: (p, (p[0] + i * d[0], p[1] + i * d[1]), (p[0] + j * d[0], p[1] + j * d[1])),
                      small_point, small_point, st.integers(-4, 4), st.integers(-4, 4))
#: coincident, exactly or nearly
coincident = st.builds(lambda p, q, which, dx, dy: tuple(
    [(p[0] + dx, p[1] + dy), p, q][i] for i in ([0, 1, 2], [0, 2, 1], [2, 0, 1])[which]),
    mid, point(100), st.integers(0, 2), mix(st.just(0.0), tiny), mix(st.just(0.0), tiny))

#: far from the origin, or far apart
far = st.builds(lambda t, e, i, j: tuple((x + i * 10.0 ** e, y + j * 10.0 ** e) for x, y in t), grid, st.integers(3, 9),
                st.integers(-9, 9), st.integers(-9, 9))
huge = st.builds(lambda t, e: tuple((x * 10.0 ** e, y * 10.0 ** e) for x, y in t), mix(grid, generic), st.integers(2, 9))

triple = mix(far, huge, grid, generic, by_angle, by_angle, near_line, near_right, near_right, near_area, collinear, coincident)
