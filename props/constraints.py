"""C10-C11 constraint graphs and constraints"""

import logging
from fractions import Fraction

from hypothesis import strategies as st

from vkit.core import check, require, sut
from vkit.gen import absent, alias, pick, Lcg, histories, many_names, mix, names, seeds, sized_names, shuffled
from props.triples import ACUTE, CCW, CW, OBTUSE, classify, triple
from solver.geometric.constraint import (Constraint, ConstraintGraph, FunctionConstraint, NotAcuteConstraint,
                                         NotClockwiseConstraint, NotCounterClockwiseConstraint, NotObtuseConstraint,
                                         PlusConstraint, SelectionConstraint)
from solver.geometry import Vector


class Custom(Constraint):
    """A user's constraint with any number of variables, possibly repeated"""

    def __init__(self, variables):
        self._variables = list(variables)

    def satisfied(self, mapping):
        return True

    def __str__(self):
        return "Custom"


class Valued(Constraint):
    """A user's constraint that is equal to any other of the same variables"""

    def __init__(self, variables):
        self._variables = list(variables)

    def satisfied(self, mapping):
        return True

    def __eq__(self, other):
        return isinstance(other, Valued) and self._variables == other._variables

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(tuple(self._variables))

    def __str__(self):
        return "Valued"


class Selected(SelectionConstraint):
    """A user's selection constraint"""

    def satisfied(self, mapping):
        return True


class Computed(Constraint):
    """A user's constraint that overrides variables()"""

    def __init__(self, variables):
        self.vs = tuple(variables)

    def variables(self):
        return list(self.vs)

    def satisfied(self, mapping):
        return True

    def __str__(self):
        return "Computed"


def always(*args):
    return True


def build_constraint(kind, vs):
    three = (list(vs) * 3)[:3]
    if kind == 0:
        return PlusConstraint(*three), three
    if kind == 1:
        return (FunctionConstraint(always, vs) if len(vs) % 2 else Selected("Selected", vs)), vs
    if kind == 2:
        return (Custom if len(vs) % 2 else Valued)(vs), vs
    if kind == 3:
        return Computed(vs), vs
    cls = [NotClockwiseConstraint, NotCounterClockwiseConstraint, NotObtuseConstraint, NotAcuteConstraint][kind % 4]
    return cls(*three), three


class Model(object):
    def __init__(self):
        self.vars = []
        self.cons = []              # (constraint, its variables)


def ident(c):
    return ("valued", tuple(c.variables())) if isinstance(c, Valued) else id(c)


def same_items(got, want):
    """Same constraints, each once"""
    return len(got) == len(want) and set(map(ident, got)) == set(map(ident, want))


def taken(what, x):
    """The elements of a list, which then is the caller's own to change"""
    with sut(what):
        out = [x[i] for i in range(len(x))]
    if isinstance(x, list):
        x.append("changed by the caller")
    return out


def ask(g, m, ns, k):
    """Something without lasting effect, just before an operation or query (often nothing at all)"""
    k, j = k % 14, k // 14
    v, w = ns[j % len(ns)], ns[j // 2 % len(ns)]
    cons = [c for c, _ in m.cons]
    with sut("an operation without effect (number {}, {!r})".format(k, v)):
        if k == 0:
            g.variables()
        elif k == 1:
            g.constraints()
        elif k == 2:
            g.get_constraints_on(v)
        elif k == 3:
            g.get_constraints_on_all([v, w])
        elif k == 4:
            g.get_constraints_on_any([v, w])
        elif k == 5:
            str(g)
        elif k == 6 and m.vars:
            g.add_variable(m.vars[j % len(m.vars)])
        elif k == 7 and cons:
            g.add_constraint(cons[j % len(cons)])
        elif k == 8:
            g.add_variable("a variable for a moment")
            g.rem_variable("a variable for a moment")
        elif k == 9:
            c = Custom(["a variable for a moment"] + m.vars[:1])
            g.add_constraint(c)
            if j % 2:
                g.rem_constraint(c)
            g.rem_variable("a variable for a moment")
        elif k == 10:
            c = Custom(m.vars[:2])
            g.add_constraint(c)
            g.rem_constraint(c)


def verify(g, m, ns, lists, after):
    k = 7 * len(m.vars) + 11 * len(m.cons) + len(repr(after))
    ask(g, m, ns, k)
    with sut("variables() and constraints()"):
        vs, cs = list(g.variables()), list(g.constraints())
    require(len(vs) == len(m.vars) and set(vs) == set(m.vars), "after {!r} the variables are {!r}, expected {!r}", after,
            vs, m.vars)
    require(same_items(cs, [c for c, _ in m.cons]), "after {!r} the constraints are {!r}, expected {!r}", after,
            [c.variables() for c in cs], [v for _, v in m.cons])
    # a constraint is not a variable
    for v in list(map(alias, ns)) + absent(ns)[:6] + [c for c, _ in m.cons[:2]]:
        k += 3
        ask(g, m, ns, k)
        with sut("get_constraints_on({!r})".format(v)):
            got = taken("get_constraints_on", g.get_constraints_on(v))
        require(same_items(got, [c for c, cv in m.cons if v in cv]),
                "after {!r} the constraints on {!r} are those on {!r}, expected {!r}", after, v,
                [c.variables() for c in got], [cv for _, cv in m.cons if v in cv])
    for l in lists + [[c] + list(cv[:1]) for c, cv in m.cons[1:2]] + [[c] for c, _ in m.cons[:1]]:
        given = tuple(l) if len(l) % 3 == 2 else list(l)
        k += 3
        ask(g, m, ns, k)
        with sut("get_constraints_on_all({!r})".format(l)):
            got = taken("get_constraints_on_all", g.get_constraints_on_all(given))
        ask(g, m, ns, k + 1)
        want = [c for c, cv in m.cons if l and all(v in cv for v in l)]
        require(same_items(got, want), "after {!r} the constraints on all of {!r} are those on {!r}, expected {!r}",
                after, l, [c.variables() for c in got], [c.variables() for c in want])
        with sut("get_constraints_on_any({!r})".format(l)):
            got = taken("get_constraints_on_any", g.get_constraints_on_any(given))
        want = [c for c, cv in m.cons if any(v in cv for v in l)]
        require(same_items(got, want), "after {!r} the constraints on any of {!r} are those on {!r}, expected {!r}",
                after, l, [c.variables() for c in got], [c.variables() for c in want])
        require(list(given) == l, "a query changed its list {!r} to {!r}", l, given)


ix = st.integers(0, 13)
op_addv = st.tuples(st.just("addv"), ix)
op_remv = st.tuples(st.just("remv"), ix)
op_addc = st.tuples(st.just("addc"), st.integers(0, 7), st.lists(ix, min_size=1, max_size=4))
op_none = st.tuples(st.just("addc"), st.integers(1, 3), st.just([]))
op_remc = st.tuples(st.just("remc"), ix)
op_again = st.tuples(st.just("again"), ix)
op_readd = st.tuples(st.just("readd"), ix)
op_absent = st.tuples(st.just("absent"), st.integers(0, 9))
op10 = mix(op_addv, op_addc, op_addc, op_addc, op_addc, op_remv, op_remc, op_again, op_readd, op_absent, op_none)
var_lists = st.lists(st.lists(mix(st.integers(0, 7), ix), max_size=4), max_size=4)


def resolve(ns, l):
    """A list of names; index 7 stands for an unknown name"""
    return [absent(ns)[len(l) % 5] if i == 7 else pick(ns, i) for i in l]


@check("C10", "history", st.tuples(names(2, 7), histories(op10, 40), var_lists), quick=900,
       rule="histories of up to 40 operations over up to 7 variables with constraints of every kind; all queries after "
            "every operation; non-trivial: a variable with a constraint on other variables too is removed")
def c10_history(case, note):
    ns, ops, lists = case
    with sut("ConstraintGraph()"):
        g, other = ConstraintGraph(), ConstraintGraph()
    m, m2 = Model(), Model()
    gone = []
    fixed = [resolve(ns, l) for l in lists] + [[], [ns[0]], [ns[0], ns[-1]], [ns[0], ns[0]], list(ns)]
    for op in ops:
        kind = op[0]
        last = None
        ask(g, m, ns, 7 * len(m.vars) + 11 * len(m.cons) + len(repr(op)) + 2)
        if kind == "addv":
            v = pick(ns, op[1])
            with sut("add_variable"):
                g.add_variable(v)
            if v not in m.vars:
                m.vars.append(v)
        elif kind == "remv":
            v = pick(ns, op[1])
            with sut("rem_variable({!r})".format(v)):
                g.rem_variable(v)
            hit = [(c, cv) for c, cv in m.cons if v in cv]
            note.count(any(len(set(cv)) > 1 for _, cv in hit))
            note.label("variable with several constraints removed", len(hit) > 1)
            note.label("absent variable removed", v not in m.vars)
            gone += hit
            m.cons = [x for x in m.cons if v not in x[1]]
            m.vars = [x for x in m.vars if x != v]
        elif kind == "addc":
            vs = [pick(ns, i) for i in op[2]]
            with sut("constructing a constraint"):
                c, vs = build_constraint(op[1], vs)
            # constraints may be in several graphs
            both = (op[1] + len(op[2])) % 3 == 0
            with sut("add_constraint"):
                if both and op[1] % 2:
                    other.add_constraint(c)
                g.add_constraint(c)
                if both and not op[1] % 2:
                    other.add_constraint(c)
            if both:
                note.label("constraint in two graphs")
                if not any(ident(x) == ident(c) for x, _ in m2.cons):
                    m2.cons.append((c, list(vs)))
                m2.vars += [v for v in dict.fromkeys(vs) if v not in m2.vars]
            note.label("equal constraint added", any(ident(x) == ident(c) for x, _ in m.cons))
            if not any(ident(x) == ident(c) for x, _ in m.cons):
                m.cons.append((c, list(vs)))
            m.vars += [v for v in dict.fromkeys(vs) if v not in m.vars]
            note.label("repeated variable", len(set(vs)) < len(vs))
            last = list(vs)
        elif kind == "remc":
            pool = m.cons + gone
            if not pool:
                continue
            c, vs = pool[op[1] % len(pool)]
            if isinstance(c, Valued):
                # an equal one does as well
                c = Valued(vs)
            with sut("rem_constraint"):
                g.rem_constraint(c)
            if any(ident(x) == ident(c) for x, _ in m.cons):
                m.cons = [x for x in m.cons if ident(x[0]) != ident(c)]
                gone.append((c, vs))
                note.label("constraint removed")
            else:
                note.label("absent constraint removed")
            last = list(vs)
        elif kind in ("again", "readd"):
            pool = m.cons if kind == "again" else gone
            if not pool:
                continue
            c, vs = pool[op[1] % len(pool)]
            if isinstance(c, Valued):
                c = Valued(vs)
            with sut("add_constraint"):
                g.add_constraint(c)
            if not any(ident(x) == ident(c) for x, _ in m.cons):
                m.cons.append((c, vs))
                gone = [x for x in gone if ident(x[0]) != ident(c)]
                note.label("constraint added back")
                m.vars += [v for v in dict.fromkeys(vs) if v not in m.vars]
        elif kind == "absent":
            with sut("removing something absent"):
                g.rem_variable(absent(ns)[op[1] % len(absent(ns))])
                g.rem_constraint(Custom(ns))
            if op[1] % 3 == 0 and m2.cons:
                c, _ = m2.cons.pop(op[1] % len(m2.cons))
                with sut("rem_constraint from another graph"):
                    other.rem_constraint(c)
        verify(g, m, ns, fixed + ([last, last[::-1], last + [ns[0]]] if last is not None else []), op)
        for c, vs in m.cons:
            require(c.variables() == list(vs), "after {!r} a constraint's variables became {!r}", op, c.variables())
    verify(other, m2, ns, fixed[-2:], "editing another graph")


@check("C10", "large", st.tuples(seeds, st.integers(5, 30), st.integers(5, 80)), quick=60,
       rule="graphs of up to 30 variables and 80 constraints, then removals of half the variables; all non-trivial")
def c10_large(case, note):
    seed, n, k = case
    r = Lcg(seed)
    ns = sized_names(seed, n)
    with sut("ConstraintGraph()"):
        g = ConstraintGraph()
    m = Model()
    note.count()
    for _ in range(k):
        vs = [ns[r.below(n)] for _ in range(1 + r.below(4))]
        with sut("adding a constraint"):
            c, vs = build_constraint(r.below(8), vs)
            g.add_constraint(c)
        if not any(ident(x) == ident(c) for x, _ in m.cons):
            m.cons.append((c, list(vs)))
        m.vars += [v for v in dict.fromkeys(vs) if v not in m.vars]
    lists = [[ns[r.below(n)] for _ in range(r.below(4))] for _ in range(5)] + [vs[:2] for _, vs in m.cons[:5]]
    verify(g, m, ns, lists, "building")
    for _ in range(n // 2):
        v = ns[r.below(n)]
        with sut("rem_variable"):
            g.rem_variable(v)
        m.cons = [x for x in m.cons if v not in x[1]]
        m.vars = [x for x in m.vars if x != v]
    verify(g, m, ns, lists, "removing variables")


@check("C10", "wide", st.tuples(seeds, st.integers(10, 90), st.integers(5, 120)), quick=12, thorough=300,
       rule="up to 120 constraints on a variable, constraints on up to 90 variables, queries for up to 90 variables; "
            "removals of these and additions again; all non-trivial")
def c10_wide(case, note):
    seed, n, k = case
    r = Lcg(seed)
    ns = many_names(r, n)
    hub = ns[0]
    with sut("ConstraintGraph()"):
        g = ConstraintGraph()
    m = Model()
    note.count()

    def add(c, vs):
        with sut("adding a constraint"):
            g.add_constraint(c)
        if not any(ident(x) == ident(c) for x, _ in m.cons):
            m.cons.append((c, list(vs)))
        m.vars += [v for v in dict.fromkeys(vs) if v not in m.vars]

    specs = [(r.below(8), [hub, ns[r.below(n)]][:1 + r.below(2)] + [ns[r.below(n)]]) for _ in range(k)]
    specs += [(1 + r.below(3), [v for v in ns if r.below(6)] or ns) for _ in range(4)]
    specs.append((2, ns + ns[:3]))
    for kind, vs in shuffled(r, specs):
        with sut("constructing a constraint"):
            c, vs = build_constraint(kind, vs)
        add(c, vs)
    lists = [list(ns), ns[:n // 2], [hub], [hub] * 3 + ns[-1:], ns[::-1] + absent(ns)[:1], absent(ns)[:2] + ns]
    verify(g, m, ns, lists, "building")
    for _ in range(3):
        c, vs = m.cons[r.below(len(m.cons))] if m.cons else (Custom(ns), ns)
        with sut("rem_constraint"):
            g.rem_constraint(c)
        m.cons = [x for x in m.cons if ident(x[0]) != ident(c)]
        verify(g, m, ns, lists[:3], "removing a constraint")
        if r.below(2):
            add(c, vs)
    gone = [x for x in m.cons if hub in x[1]]
    with sut("rem_variable"):
        g.rem_variable(hub)
    m.cons = [x for x in m.cons if hub not in x[1]]
    m.vars = [x for x in m.vars if x != hub]
    verify(g, m, ns, lists, "removing the hub")
    for c, vs in gone[:40]:
        add(c, vs)
    verify(g, m, ns, lists, "adding constraints back")


# ---------------------------------------------------------------- C11

@check("C11", "many", st.tuples(seeds, st.integers(7, 200), st.booleans()), quick=25, thorough=600,
       rule="function constraints over up to 200 variables, with repetitions; all non-trivial")
def c11_many(case, note):
    seed, n, rep = case
    r = Lcg(seed)
    ns = many_names(r, n)
    vs = [ns[r.below(n)] for _ in range(n)] if rep else shuffled(r, ns)
    note.count()
    mapping = {v: i for i, v in enumerate(shuffled(r, ns))}
    calls = []
    for answer in (True, False, 1):
        def function(*args):
            calls.append(args)
            return answer
        with sut("a constraint on {} variables".format(n)):
            c = FunctionConstraint(function, vs)
            got, s = list(c.variables()), c.satisfied(mapping)
        require(got == vs, "variables() is {!r}, expected {!r}", got, vs)
        require(calls == [tuple(mapping[v] for v in vs)], "function called with {!r} for variables {!r}", calls, vs)
        require(s is (answer is True), "satisfied() is {!r} when the function returns {!r}", s, answer)
        del calls[:]


@check("C11", "function", st.tuples(names(1, 6), st.lists(ix, max_size=6), st.lists(st.integers(-9, 9), min_size=6,
                                                                                  max_size=6),
                                    st.sampled_from([True, True, True, False, False, None, 0, 1, "yes"]),
                                    st.booleans()), quick=900,
       rule="function constraints over up to 6 variables in any order, with repetitions, on mappings with unrelated "
            "entries; non-trivial: at least two variables")
def c11_function(case, note):
    ns, ixs, vals, answer, tuple_given = case
    vs = [pick(ns, i) for i in ixs]
    calls = []

    def function(*args):
        calls.append(args)
        return answer

    given = tuple(vs) if tuple_given else list(vs)
    with sut("FunctionConstraint"):
        c = FunctionConstraint(function, given)
        got = c.variables()
    note.count(len(vs) > 1)
    note.label("answer {!r}".format(answer))
    require(list(got) == vs, "variables() is {!r}, expected {!r}", got, vs)
    if not tuple_given:
        given.append("changed later")
    with sut("variables()"):
        got.append("changed by the caller")
        require(list(c.variables()) == vs, "changing the list given or returned changed the constraint's variables")
    mapping = {v: x for v, x in zip(ns, vals)}
    mapping["unrelated"] = 99
    before = dict(mapping)
    for _ in range(2):
        with sut("satisfied({!r})".format(mapping)):
            s = c.satisfied(mapping)
        require(s is (answer is True), "satisfied() is {!r} when the function returns {!r}", s, answer)
        require(calls == [tuple(before[v] for v in vs)], "function called with {!r} for variables {!r} of {!r}", calls,
                vs, before)
        require(mapping == before and list(mapping) == list(before), "checking the constraint changed the mapping")
        with sut("variables()"):
            require(list(c.variables()) == vs, "checking the constraint changed its variables")
        del calls[:]
    # reads the mapping afresh each time
    changed = {v: -x - 1 for v, x in before.items()}
    with sut("satisfied"):
        c.satisfied(changed)
    require(calls == [tuple(changed[v] for v in vs)], "stale values: {!r} for {!r}", calls, changed)


KINDS = [("not clockwise", NotClockwiseConstraint, CW), ("not counter-clockwise", NotCounterClockwiseConstraint, CCW),
         ("not obtuse", NotObtuseConstraint, OBTUSE), ("not acute", NotAcuteConstraint, ACUTE)]


@check("C11", "placement", st.tuples(st.sampled_from([0, 1, 2, 3]), names(3, 3), triple,
                                     st.permutations([0, 1, 2]), st.sampled_from([0] * 9 + [1, 2, 3])), quick=2500,
       rule="placements of three points (grids, nearly collinear, nearly right, coincident, arbitrary angles), given to "
            "the four placement constraints with variables in any order and possibly repeated; non-trivial: the exact "
            "geometry is not within the undecided band around the tolerance")
def c11_placement(case, note):
    k, ns, pts, order, repeat = case
    name, cls, bad = KINDS[k]
    vs = list(ns)
    pts = list(pts)
    if repeat == 1:
        vs[1], pts[1] = vs[0], pts[0]
    elif repeat == 2:
        vs[2], pts[2] = vs[0], pts[0]
    elif repeat == 3:
        vs[2], pts[2] = vs[1], pts[1]
    got = classify(*pts)
    with sut("constructing " + name):
        c = cls(*vs)
    mapping = {}
    for i in order:
        mapping[alias(vs[i])] = Vector(*pts[i])
    mapping["unrelated"] = Vector(3, 4)
    coords = {v: (p.x, p.y) for v, p in mapping.items()}
    with sut("variables()"):
        require(list(c.variables()) == vs, "variables() is {!r}, expected {!r}", c.variables(), vs)
    with sut("checking {} on {!r}".format(name, pts)):
        s = c.satisfied(mapping)
        again = c.satisfied(mapping)
    require(s is True or s is False, "satisfied() is {!r}", s)
    require(s == again, "the second check differs from the first")
    require({v: (p.x, p.y) for v, p in mapping.items()} == coords, "checking {} changed the mapping", name)
    side = got[0] if bad in (CW, CCW) else got[1]
    if side is None:
        note.label("undecided")
        return
    note.count()
    note.label("{} {}".format(name, "rejects" if side == bad else "accepts"))
    note.label("repeated variable", repeat)
    require(s == (side != bad), "{} is {!r} for {!r}, which is {}", name, s, pts, side)


numbers = mix(st.integers(-6, 6), st.integers(-6, 6), st.integers(-10 ** 20, 10 ** 20), st.fractions(-5, 5, max_denominator=6),
              st.floats(-100, 100, allow_nan=False))


@check("C11", "plus", st.tuples(names(3, 3), numbers, numbers, mix(st.just("sum"), st.just("sum"), numbers),
                                st.sampled_from([0] * 9 + [1, 2, 3])), quick=900,
       rule="sum constraints on ints of any size, fractions and floats, with exact and wrong sums and repeated "
            "variables; non-trivial: the sum is satisfied")
def c11_plus(case, note):
    ns, a, b, c, repeat = case
    va, vb, vc = ns
    if c == "sum":
        c = a + b
    if repeat == 1:
        vb, b = va, a
    elif repeat == 2:
        vc, c = va, a
    elif repeat == 3:
        vc, c = vb, b
    with sut("PlusConstraint"):
        con = PlusConstraint(va, vb, vc)
        require(list(con.variables()) == [va, vb, vc], "variables() is {!r}", con.variables())
    mapping = {vc: c, alias(vb): b, alias(va): a, "unrelated": 7}
    before = dict(mapping)
    with sut("satisfied"):
        s = con.satisfied(mapping)
    require(bool(s) == (a + b == c), "PlusConstraint is {!r} for {!r} + {!r} == {!r}", s, a, b, c)
    note.count(a + b == c)
    require(mapping == before, "checking the constraint changed the mapping")
    require(list(con.variables()) == [va, vb, vc], "checking the constraint changed its variables")
