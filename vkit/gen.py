"""Generators shared by the checks"""

from fractions import Fraction

from hypothesis import strategies as st

from . import core


def mix(*strategies):
    """One of the strategies, each equally likely, however many branches it has itself, and where repeating one gives
    it more weight (st.one_of flattens nested alternatives and drops repetitions)"""
    return st.integers(0, len(strategies) - 1).flatmap(lambda i: strategies[i])


class H(object):
    """A hashable object with a chosen hash value, equal only to its namesakes"""

    def __init__(self, name, h):
        self.name, self.h = name, h

    def __eq__(self, other):
        return isinstance(other, H) and self.name == other.name

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "H({!r}, {!r})".format(self.name, self.h)


class Call(object):
    """A value that can be called, which nobody has reason to do"""

    def __init__(self, name):
        self.name = name

    def __call__(self, *args):
        return "called"

    def __eq__(self, other):
        return isinstance(other, Call) and self.name == other.name

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return "Call({!r})".format(self.name)


class Odd(object):
    """A value that is neither comparable, hashable nor true or false (as arrays are)"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        raise ValueError("not comparable")

    __ne__ = __lt__ = __gt__ = __eq__
    __hash__ = None

    def __bool__(self):
        raise ValueError("neither true nor false")

    def __repr__(self):
        return "Odd({!r})".format(self.name)


nan = float("nan")
inf = float("inf")
core.CASE_NAMESPACE.update(H=H, Fraction=Fraction, Call=Call, Odd=Odd, nan=nan, inf=inf)

#: names of variables, vertices and points: any hashable, pairwise unequal
NAMES = ["a", "b", "c", "x1", "", 0, 1, 2, 3, 7, -1, -2, 2 ** 61 - 1, 10 ** 30, None, (), (1, 2), ("a", "b"), 0.5,
         frozenset(), frozenset([1]), H("p", 0), H("q", 0), H("r", 1), H("s", -2), H("t", 3), "None", "0",
         "corner of the second rectangle", "variable_17", ("point", 12, "of", "polygon", 3), 1e300]


def names(lo, hi):
    """Lists of distinct names; often plain ones, so that failures stay readable"""
    simple = st.integers(lo, hi).map(lambda n: ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"][:n])
    any_ = st.lists(st.sampled_from(NAMES), min_size=lo, max_size=hi, unique_by=lambda n: (type(n).__name__, repr(n)))
    return mix(simple, any_, any_) if hi <= 12 else any_


def alias(x):
    """An equal but distinct representation of a name, where there is one (an equal name is the same name)"""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        if x in (0, 1):
            return bool(x)
        return float(x) if float(x) == x else x
    if isinstance(x, float):
        return Fraction(x) if x - x == 0 else x
    if isinstance(x, str):
        return "".join(list(x)) if x else x
    if isinstance(x, tuple):
        return tuple(list(map(alias, x)))
    if isinstance(x, frozenset):
        return frozenset(map(alias, x))
    if isinstance(x, H):
        return H(x.name, x.h)
    return x


def pick(ns, i):
    """The i-th name (cyclically), in its other representation on odd rounds"""
    x = ns[i % len(ns)]
    return alias(x) if (i // len(ns)) % 2 else x


ABSENT = ["zz-absent", H("absent", 0), 99, ("absent", 1)]


def absent(ns):
    """Names that are none of the given ones"""
    return [x for x in ABSENT + [None, "", 0, (), -7, frozenset()] if x not in ns]


class Lcg(object):
    """Expands one generated integer into a long deterministic sequence (for cases too big to draw piecewise)"""

    def __init__(self, seed):
        self.s = (seed * 2862933555777941757 + 3037000493) % 2 ** 64

    def below(self, n):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (self.s >> 33) % n

    def unit(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (self.s >> 11) / float(2 ** 53)


seeds = st.integers(0, 2 ** 32)


def many_names(r, n, spread=False):
    """n distinct names of all kinds, in random order; with `spread`, names whose hashes are unlike each other: how
    much equal hashes slow down a set of thousands is not the matter of any check"""
    forms = [lambda i: "v%d" % i, lambda i: i, lambda i: ("p", i), lambda i: -i - 5, lambda i: H("h%d" % i, i % 7),
             lambda i: frozenset([i, "f"]), lambda i: i + 0.5, lambda i: "corner %d of the figure" % i,
             lambda i: (i, i + 1, "edge", "of", i), lambda i: i * 10 ** 6]
    if spread:
        forms = [f for i, f in enumerate(forms) if i != 4]
    k = r.below(len(forms) + 2)
    out = [forms[r.below(len(forms))](i) if k >= len(forms) else forms[k](i) for i in range(n)]
    return shuffled(r, out)


def sized_names(seed, n, spread=False):
    """The same, for a case that is expanded from a seed; sometimes plain"""
    r = Lcg(seed + 77)
    return ["v%d" % i if i % 2 else i for i in range(n)] if r.below(4) == 0 else many_names(r, n, spread)


def shuffled(r, xs):
    xs = list(xs)
    for i in range(len(xs) - 1, 0, -1):
        j = r.below(i + 1)
        xs[i], xs[j] = xs[j], xs[i]
    return xs


# ---------------------------------------------------------------- numbers

def log_uniform(lo_exp, hi_exp):
    """Positive numbers spread evenly over orders of magnitude"""
    return st.builds(lambda e, m: float(m * 10.0 ** e), st.integers(lo_exp, hi_exp - 1), st.floats(1.0, 9.999))


def signed(s):
    return st.builds(lambda x, n: -x if n else x, s, st.booleans())


def coord(limit=100):
    """Coordinates: small integers, quarters, generic and small-magnitude floats"""
    return mix(
        st.integers(-5, 5).map(float),
        st.integers(-4 * limit, 4 * limit).map(lambda n: n / 4.0),
        st.floats(-limit, limit, allow_nan=False, allow_subnormal=False).map(lambda x: 0.0 if abs(x) < 1e-30 else x),
        signed(log_uniform(-6, 1)),
    )


def point(limit=100):
    return st.tuples(coord(limit), coord(limit))


angle_deg = mix(
    st.integers(-8, 8).map(lambda n: 45.0 * n),
    st.floats(-720, 720, allow_nan=False, allow_subnormal=False),
    st.integers(-12, 12).map(lambda n: 30.0 * n),
    signed(log_uniform(-6, 1)),
)


def histories(op, hi, long_from=None):
    """Operation lists: short ones, and (Hypothesis favours short lists) explicitly long ones"""
    long_from = long_from or max(2, hi // 3)
    return mix(st.lists(op, max_size=min(8, hi)), st.lists(op, min_size=long_from, max_size=hi),
                     st.lists(op, min_size=long_from, max_size=hi))
