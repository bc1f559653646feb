"""C30 names carry no meaning"""

import collections
import datetime
import decimal
import enum
import math

from hypothesis import strategies as st

from vkit.core import check, require
from vkit.gen import NAMES, H, Lcg, alias, mix, seeds, shuffled
from props.isolation import (World, activity, clusters, configurations, constraint_graphs, graphs, method_graphs, methods,
                             relations, selections, KINDS)
from solver.geometric.configuration import Configuration
from solver.geometric.constraint import PlusConstraint
from solver.geometric.relation import Angle, Distance
from solver.geometry import Vector
from solver.method import AssignMethod


class Colour(enum.Enum):
    RED = 1
    GREEN = 2


class Name(str):
    """A kind of text"""


class PointLike(object):
    """A name with attributes that the library uses of other objects"""

    x = y = 1.0
    inputs = outputs = points = mapping = vars = elements = ()
    c_var = x_vars = name = None

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text

    def __call__(self):
        return self.text

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())


class Unordered(object):
    """A name that refuses all comparisons but equality"""

    def __init__(self, text, h):
        self.text, self.h = text, h

    def __eq__(self, other):
        return isinstance(other, Unordered) and self.text == other.text

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self.h

    def __lt__(self, other):
        raise TypeError("not ordered")

    __gt__ = __le__ = __ge__ = __lt__

    def __bool__(self):
        raise TypeError("neither true nor false")

    def __repr__(self):
        return "Unordered({!r})".format(self.text)


Pair = collections.namedtuple("Pair", "x y")
#: pairwise unequal names of every kind
POOL = NAMES + [
    "None", "0", "1", "a b", "é", "\U0001f600", "\ud800", "{0}", "%s", "a" * 300, Name("name"), "__class__", "self", "vertex",
    True + 1, 2.5, -0.25, 1e300, -1e-300, math.inf, -math.inf, 3 + 4j, 10 ** 400, -2 ** 63, 2 ** 64, decimal.Decimal("0.1"),
    b"", b"a", bytes(300), (None,), ((),), ((1, 2), 3), ("a",), tuple(range(50)), frozenset(["a"]), frozenset([frozenset()]),
    Ellipsis, NotImplemented, int, str, Vector, len, Lcg, math, object(), object(), range(3), Colour.RED, Colour.GREEN,
    Pair("x", "y"), datetime.date(2020, 1, 1), PointLike("p"), PointLike("q"), Unordered("u", 1), Unordered("v", 1),
    Unordered("w", -1), Unordered("z", hash("a")), H("x", 2), H("y", 2), H("z", -1), H("w", hash("a")), Distance("a", "b"),
    Angle("a", "b", "c"), Configuration({"a": Vector(0, 0)}), PlusConstraint("a", "b", "c"), AssignMethod("a", "b"),
]
POOL = list(dict.fromkeys(POOL))
NAMED = [configurations, clusters, relations, selections, graphs, constraint_graphs, method_graphs, methods]
named = st.sampled_from([KINDS.index(k) for k in NAMED])
acts = st.lists(st.tuples(named, seeds), min_size=1, max_size=4)


def agrees(a, b):
    """Equal answers (numbers up to rounding, as a different one of the shared points may have been the reference)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(agrees, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-6) or (a != a and b != b)
    return type(a) == type(b) and a == b


def compare(seed, rest, first, second, what):
    w, v = World(seed, first, 0), World(seed, second, 0)
    for k, s in rest:
        a, b = activity(w, k, s)(), activity(v, k, s)()
        require(agrees(a, b), "{} with names {!r} gives {!r}, and with {} {!r} instead {!r}", KINDS[k].__name__, list(first),
                a, what, list(second), b)


@check("C30", "renamed", st.tuples(seeds, acts, seeds), quick=1500,
       rule="activities on graphs, method graphs, constraint graphs, clusters, relations, constraints and configurations, "
            "with plain names and with hashable objects of over a hundred kinds in their place; non-trivial: some name is "
            "not a text")
def renamed(case, note):
    seed, rest, s = case
    r = Lcg(s)
    some = shuffled(r, POOL)[:7]
    if r.below(2):
        # names with a hash in common, or that read the same
        group = [[n for n in POOL if hash(n) == hash(some[0])], [n for n in POOL if repr(n).strip("'") == repr(some[0])],
                 [n for n in POOL if type(n) is type(some[0])], [n for n in POOL if isinstance(n, (H, Unordered))],
                 [-1, -2, "-1", "-2", 0, "0", ""], [None, "None", "", (), 0, frozenset(), b""]][r.below(6)]
        some = shuffled(r, list(dict.fromkeys(shuffled(r, group) + some))[:7])
    for k, _ in rest:
        note.label(KINDS[k].__name__)
    note.count(any(type(n) is not str for n in some))
    compare(seed, rest, ["a", "b", "c", "d", "e", "f", "g"], some, "names")


class Aliasing(list):
    """Names that are given in another, equal form every other time"""

    turn = 0

    def other(self, x):
        self.turn += 1
        return alias(x) if self.turn % 2 else x

    def __getitem__(self, i):
        x = list.__getitem__(self, i)
        return list(map(self.other, x)) if isinstance(i, slice) else self.other(x)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]


@check("C30", "equal_names", st.tuples(seeds, acts, seeds), quick=1000,
       rule="the same activities with each name given in different forms that are equal (1, 1.0 and True; separately built "
            "tuples, texts and objects); non-trivial: some name has such forms")
def equal_names(case, note):
    seed, rest, s = case
    some = shuffled(Lcg(s), NAMES)[:7]
    for k, _ in rest:
        note.label(KINDS[k].__name__)
    note.count(any(alias(n) is not n for n in some))
    compare(seed, rest, some, Aliasing(some), "equal names")
