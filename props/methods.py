"""C04-C09 method graphs and methods"""

import itertools
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vkit import core
from vkit.core import Violation, check, refused, require, sut
from vkit.gen import Call, Odd, absent, alias, inf, mix, nan, Lcg, histories, names, pick, seeds, sized_names, shuffled, H
from solver.geometry import Vector
from solver.method import (AddMethod, AssignMethod, Method, MethodGraph, MethodGraphCycleException,
                           MethodGraphDetermineException, MultiMethod, MultiVariable, SetMethod, SubMethod,
                           SumProdMethod)


def same(a, b):
    """Equal and of the same type (0 and False are different values)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Odd):
        return a.name == b.name
    if isinstance(a, float) and a != a:
        return b != b
    return bool(a == b)


def enc(v):
    """Any value as a number"""
    if isinstance(v, (Odd, Call)):
        return 31 + len(v.name)
    if isinstance(v, float) and v - v != 0:
        return 37 if v == inf else 38
    if isinstance(v, bool):
        return 17 if v else 7
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return 200 + int(4 * v)
    if v == "":
        return 11
    if isinstance(v, str):
        return 100 + sum(map(ord, v))
    if isinstance(v, tuple):
        return 1000 + len(v)
    if isinstance(v, list):
        return 2000 + 3 * len(v) + sum(v)
    return 5


def construct(method, init, name, inputs, outputs, k):
    """Constructs a method from lists that are changed afterwards, tuples or iterators"""
    inputs, outputs = list(inputs), list(outputs)
    form = (list, tuple, iter)[k % 3]
    a, b = form(list(inputs)), form(list(outputs))
    init(name, a, b)
    if form is list:
        a[:] = ["changed"] * (len(a) + 1)
        b[:] = ["changed"] * (len(b) + 1)
    for what, xs, ys in (("inputs", method.inputs, inputs), ("outputs", method.outputs, outputs)):
        if len(xs) != len(ys) or any(x is not y for x, y in zip(xs, ys)):
            raise Violation("a method built with the {} {!r} has the {} {!r}".format(what, ys, what, xs))


class PM(Method):
    """A pure method with a recognisable function of its inputs; optionally partial"""

    def __init__(self, name, inputs, outputs, coef, partial, world):
        construct(self, super(PM, self).__init__, name, inputs, outputs, coef)
        self.coef = coef
        self.partial = partial
        self.world = world          # where problems are recorded
        self.dead = False           # removed or refused: must not run any more
        self.runs = 0
        self.box = []               # filled again and again, if coef % 8 is 6
        self.key = object()

    def outs(self, values):
        """Reference: output values for input values, None for no value"""
        r = []
        for k in range(len(self.outputs)):
            t = self.coef + 13 * k
            for j, v in enumerate(values):
                t += (j + 2 + k) * enc(v) * (self.coef % 5 + 1) + (enc(v) % 3) * (j + 1)
            t = t % 97
            if self.coef % 6 == 0 and values and k == 0:
                # carries its first input
                r.append(list(values[0]) if isinstance(values[0], list) else values[0])
            elif self.partial == 1 and t % 3 == 0 or self.partial == 2 and t % 4 == k % 4 or self.partial == 3:
                r.append(None)
            elif t % 11 == 0:
                r.append([0, False, "", (), Odd("s") if self.coef % 2 else "s", nan, Call("t"), 1.0, 0.0][t // 11])
            elif self.coef % 8 == 6 and k == 0:
                r.append([t, self.coef])
            else:
                r.append(t)
        return r

    def execute(self, in_map):
        w = self.world
        self.runs += 1
        w.executions += 1
        if w.executions > w.limit:
            raise Violation("propagation executed methods more than {} times".format(w.limit))
        if self.dead:
            w.problems.append("{} was executed although it is not in the graph".format(self.name))
        for v in self.inputs:
            if v not in in_map:
                w.problems.append("input {!r} of {} is missing from its input map".format(v, self.name))
                return {}
            if in_map[v] is None:
                w.problems.append("{} was executed with no value for input {!r}".format(self.name, v))
            if w.mg is not None and not same(in_map[v], w.mg.get(v)):
                w.problems.append("{} was given {!r} for input {!r}, which is {!r}".format(
                    self.name, in_map[v], v, w.mg.get(v)))
        for v in self.outputs:
            if v not in in_map:
                w.problems.append("previous value of output {!r} of {} is missing from its input map".format(
                    v, self.name))
            elif w.mg is not None and not same(in_map[v], w.mg.get(v)):
                w.problems.append("{} was given {!r} for the previous value of {!r}, which is {!r}".format(
                    self.name, in_map[v], v, w.mg.get(v)))
        out = self.outs([in_map[v] for v in self.inputs])
        if self.coef % 8 == 6 and out and isinstance(out[0], list):
            # the same list every time, with other contents
            self.box[:] = out[0]
            out[0] = self.box
        # a missing value is either left out or given as None
        result = {v: o for k, (v, o) in enumerate(zip(self.outputs, out)) if o is not None or (self.coef + k) % 2}
        if self.coef % 7 == 5:
            # the input map is the method's own
            for v in list(in_map):
                in_map[v] = "scratch"
            in_map["zz-scratch"] = 1
        if self.coef % 9 == 7:
            # only the outputs are the method's to set
            for v in self.inputs + w.vars()[:2]:
                if v not in self.outputs:
                    result[v] = "stray"
            result["zz-stray"] = 1
        return result

    def twin(self):
        """An equal method, which must not run unless it is added when this one is not in the graph"""
        t = PM(self.name, self.inputs, self.outputs, self.coef, self.partial, self.world)
        t.key = self.key
        t.box = self.box
        t.dead = True
        return t

    def __eq__(self, other):
        return isinstance(other, PM) and self.key is other.key

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "PM({!r})".format(self.name)


class World(object):
    """A method graph under test together with what it should contain"""

    def __init__(self, ns, pool=None):
        self.ns = ns
        self.executions = 0
        self.limit = 20000
        self.problems = []
        with sut("MethodGraph()"):
            self.mg = MethodGraph()
        self.free = {}              # variable -> value, for variables not determined by a method
        self.det = {}               # variable -> method
        self.present = []           # methods in the graph
        self.gone = []              # removed or refused methods
        self.count = 0

    def vars(self):
        return list(self.free) + list(self.det)

    def make(self, inputs, outputs, coef, partial):
        self.count += 1
        return PM("m%d" % self.count, inputs, outputs, coef, partial, self)

    def verdict(self, inputs, outputs):
        """Whether a method would be doubly determined, and cyclic"""
        double = any(v in self.det for v in outputs)
        down = {}
        for m in self.present:
            for i in m.inputs:
                down.setdefault(i, set()).update(m.outputs)
        for i in inputs:
            down.setdefault(i, set()).update(outputs)
        cyclic = False
        for o in outputs:
            seen, front = set(), [o]
            while front:
                x = front.pop()
                for y in down.get(x, ()):
                    if y == o:
                        cyclic = True
                    if y not in seen:
                        seen.add(y)
                        front.append(y)
        return double, cyclic

    def note_added(self, met):
        for v in met.inputs + met.outputs:
            if v not in self.free and v not in self.det:
                self.free[v] = None
        for v in met.outputs:
            self.free.pop(v, None)
            self.det[v] = met
        self.present.append(met)
        met.dead = False

    def note_refused(self, met):
        """A refused method may leave its variables behind, without values"""
        with sut("variables()"):
            known = list(self.mg.variables())
        for v in met.inputs + met.outputs:
            if v not in self.free and v not in self.det and v in known:
                self.free[v] = None
        met.dead = True
        if met not in self.gone:
            self.gone.append(met)

    def note_removed(self, met):
        self.present.remove(met)
        self.gone.append(met)
        met.dead = True
        for v in met.outputs:
            if self.det.get(v) is met:
                del self.det[v]

    def problem_check(self, after):
        require(not self.problems, "after {!r}: {}", after, self.problems[0] if self.problems else "")

    def check_structure(self, after):
        with sut("variables() and methods()"):
            vs, ms = list(self.mg.variables()), list(self.mg.methods())
        want = self.vars()
        require(len(vs) == len(want) and set(vs) == set(want), "after {!r} the variables are {!r}, expected {!r}",
                after, vs, want)
        require(len(ms) == len(self.present) and set(map(id, ms)) == set(map(id, self.present)),
                "after {!r} the methods are {!r}, expected {!r}", after, ms, self.present)

    def value(self, v):
        with sut("get({!r})".format(v)):
            return self.mg.get(v)

    def check_free(self, after):
        for v, x in self.free.items():
            got = self.value(v)
            require(same(got, x), "after {!r} variable {!r} is {!r}, expected {!r}", after, v, got, x)

    def check_fixpoint(self, after):
        for m in self.present:
            ins = [self.value(v) for v in m.inputs]
            want = [None] * len(m.outputs) if any(x is None for x in ins) else m.outs(ins)
            for v, x in zip(m.outputs, want):
                got = self.value(v)
                require(same(got, x), "after {!r} variable {!r} is {!r}, but its method gives {!r} for the inputs {!r}",
                        after, v, got, x, ins)

    def check_all(self, after):
        self.problem_check(after)
        checks = [self.check_structure, self.check_free, self.check_fixpoint]
        k = (self.executions + len(self.free) + len(repr(after))) % 4
        for c in checks[k:] + checks[:k]:
            c(after)


VALS = [0, 1, 2, 3, 5, 8, 40, -1, False, "", "x", (), (1, 2), None, None, True, 10 ** 12, nan, inf,
        Call("f"), Odd("o"), Odd("oo")]
val = mix(st.sampled_from(VALS), st.sampled_from(VALS), st.sampled_from([0, False, 0.0, 1, True, 1.0]))
ix = st.integers(0, 11)
ixs = st.lists(ix, max_size=3)
ixs1 = st.lists(ix, min_size=1, max_size=2)
coef = st.integers(0, 60)
partial = st.sampled_from([0, 0, 0, 0, 1, 2, 3])
op_met = st.tuples(st.just("met"), ixs, ixs1, coef, partial, st.booleans())
op_set = st.tuples(st.just("set"), ix, val, st.booleans())
op_flip = st.tuples(st.just("flip"), ix, st.booleans())
op_mut = st.tuples(st.just("mut"), ix, st.integers(0, 9), st.booleans())
op_var = st.tuples(st.just("var"), ix, val)
op_exec = st.tuples(st.just("exec"), ix)
op_again = st.tuples(st.just("again"), ix)
op_prop = st.tuples(st.just("prop"))
op_remm = st.tuples(st.just("remm"), ix)
op_remv = st.tuples(st.just("remv"), ix)
op_bad = st.tuples(st.just("bad"), st.integers(0, 11), ix, val, st.booleans())
op_readd = st.tuples(st.just("readd"), ix, st.booleans())
op_clear = st.tuples(st.just("clear"))
op_chain = st.tuples(st.just("met"), st.lists(ix, min_size=1, max_size=3), ixs1, coef, st.sampled_from([0, 0, 0, 0, 1, 2]),
                     st.booleans())
full = st.sampled_from([v for v in VALS if v is not None])


def started(history):
    """Histories that (mostly) start from several variables with values and a few methods between them"""
    start = st.builds(lambda vs, ms: [("var", i, x) for i, x in enumerate(vs)] + ms,
                      st.lists(full, min_size=2, max_size=6), st.lists(op_chain, min_size=2, max_size=5))
    return mix(history, *[st.builds(lambda a, b: a + b, start, history)] * 4)


def uniq(xs):
    return list(dict.fromkeys(xs))


def try_add(w, met, prop, note, strict):
    """Adds a method and compares the verdict; returns whether it was accepted"""
    # propagating is the default
    add = (lambda: w.mg.add_method(met)) if prop and met.coef % 2 else (lambda: w.mg.add_method(met, prop=prop))
    if met in w.present:
        with sut("add_method again"):
            add()
        note.label("method added twice")
        return True
    double, cyclic = w.verdict(met.inputs, met.outputs)
    if double or cyclic:
        kinds = ([MethodGraphDetermineException] if double else []) + ([MethodGraphCycleException] if cyclic else [])
        note.label("refused: " + ("both" if double and cyclic else "determined" if double else "cycle"))
        met.dead = True
        refused("adding a method {!r} -> {!r} that is {}".format(
            met.inputs, met.outputs, "doubly determined" if double else "cyclic"), add, kinds)
        w.note_refused(met)
        return False
    met.dead = False
    with sut("add_method {!r} -> {!r}".format(met.inputs, met.outputs)):
        add()
    if met in w.gone:
        w.gone.remove(met)
    w.note_added(met)
    note.label("methods with several outputs", len(met.outputs) > 1)
    note.label("methods without inputs", len(met.inputs) == 0)
    return True


def touch(w, k, prop):
    """Something without lasting effect, just before an operation (often nothing at all)"""
    k, j = k % 16, k // 16
    mg, vs = w.mg, w.vars()
    free = list(w.free)
    if k > 9 or not vs:
        return
    v = vs[j % len(vs)]
    with sut("an operation without effect (number {}, {!r})".format(k, v)):
        if k == 0:
            mg.variables()
        elif k == 1:
            mg.methods()
        elif k == 2:
            str(mg)
        elif k == 3:
            mg.get(v)
        elif k == 4:
            mg.add_variable(v, 77)
        elif k == 5 and free:
            mg.set(free[j % len(free)], w.free[free[j % len(free)]], prop=prop)
        elif k in (6, 7, 8):
            tmp, out = "a variable for a moment", "another for a moment"
            met = SetMethod(tmp, 4) if k == 6 else AssignMethod(out, tmp)
            mg.add_method(met, prop=prop)
            if k == 8:
                mg.rem_method(met)
            mg.rem_variable(tmp)
            if k != 6:
                mg.rem_variable(out)
        elif k == 9 and free:
            mg.set(free[j % len(free)], w.free[free[j % len(free)]], prop=False)


def step(w, op, note, valid_only, defer):
    """Applies one operation.  Returns whether the graph must be settled afterwards (None: nothing happened)"""
    n = lambda i: pick(w.ns, i)
    touch(w, w.executions + 5 * len(w.vars()) + 3 * len(w.present) + len(repr(op)), not defer)
    kind = op[0]
    if kind == "var":
        v = n(op[1])
        with sut("add_variable"):
            w.mg.add_variable(v, op[2]) if op[2] is not None else w.mg.add_variable(v)
        if v not in w.free and v not in w.det:
            w.free[v] = op[2]
        return False
    if kind == "met":
        ins, outs = uniq(n(i) for i in op[1]), uniq(n(i) for i in op[2])
        if valid_only:
            outs = [v for v in outs if v not in w.det and not w.verdict(ins, [v])[1]]
            if not outs or w.verdict(ins, outs)[1]:
                return None
        prop = op[5] if defer else True
        ok = try_add(w, w.make(ins, outs, op[3], op[4]), prop, note, True)
        return prop and ok
    if kind == "again" and w.present:
        m = w.present[op[1] % len(w.present)]
        if op[1] % 2:
            note.label("equal method added")
            m = m.twin()
        try_add(w, m, True, note, True)
        return False
    if kind == "readd" and w.gone:
        m = w.gone[op[1] % len(w.gone)]
        m = m.twin() if op[1] % 4 == 1 else m
        prop = op[2] if defer else True
        note.label("removed or refused method added again")
        ok = try_add(w, m, prop, note, True)
        return prop and ok
    if kind == "flip" and w.free:
        # an equal but different value
        v = list(w.free)[op[1] % len(w.free)]
        x = w.free[v]
        y = alias(x) if not isinstance(x, bool) else float(x)
        note.label("set to an equal value of another type", not same(x, y))
        return step(w, ("set", op[1], y, op[2]), note, valid_only, defer)
    if kind == "mut" and w.free:
        # a list, changed in place and set again; a second time on the same variable it is the same object
        v = list(w.free)[op[1] % len(w.free)]
        x = w.free[v]
        if isinstance(x, list):
            x[:] = [op[2]] * (1 + op[2] % 3)
            note.label("set again after a change in place")
        else:
            x = [op[2]]
        return step(w, ("set", op[1], x, op[3]), note, valid_only, defer)
    if kind == "set" and w.free:
        v = alias(list(w.free)[op[1] % len(w.free)])
        prop = op[3] if defer else True
        with sut("set({!r}, {!r}, prop={})".format(v, op[2], prop)):
            if prop and op[1] % 2:
                w.mg.set(v, op[2])
            else:
                w.mg.set(v, op[2], prop=prop)
        w.free[v] = op[2]
        note.label("deferred set", not prop)
        return prop
    if kind == "exec" and w.present:
        with sut("execute"):
            w.mg.execute(w.present[op[1] % len(w.present)])
        return True
    if kind == "prop":
        with sut("propagate"):
            w.mg.propagate()
        return True
    if kind == "remm" and w.present:
        m = w.present[op[1] % len(w.present)]
        kept = {v: w.value(v) for v in m.outputs}
        with sut("rem_method"):
            w.mg.rem_method(m.twin() if op[1] % 4 == 1 else m)
        w.note_removed(m)
        for v in m.outputs:
            w.free[v] = kept[v]
        note.label("method removed")
        return False
    if kind == "remv" and w.vars():
        v = w.vars()[op[1] % len(w.vars())]
        gone = [m for m in w.present if v in m.inputs or v in m.outputs]
        kept = {x: w.value(x) for m in gone for x in m.outputs}
        with sut("rem_variable({!r})".format(v)):
            w.mg.rem_variable(v)
        for m in gone:
            w.note_removed(m)
        for x in kept:
            w.free[x] = kept[x]
        w.free.pop(v, None)
        w.det.pop(v, None)
        note.label("variable removed")
        note.label("variable with several methods removed", len(gone) > 1)
        return False
    if kind == "bad":
        a = absent(w.ns)[op[2] % len(absent(w.ns))]
        with sut("variables()"):
            before = list(w.mg.variables())
        if op[1] % 3 == 0:
            refused("rem_variable of absent {!r}".format(a), lambda: w.mg.rem_variable(a))
        elif op[1] % 3 == 1:
            refused("set of absent {!r}".format(a), lambda: w.mg.set(a, op[3], prop=op[4]))
        else:
            m = w.gone[op[2] % len(w.gone)] if w.gone else w.make([n(0)], [n(1)], 3, 0)
            if m not in w.gone:
                m.dead = True
            refused("rem_method of absent method", lambda: w.mg.rem_method(m))
            if op[4]:
                refused("execute of absent method", lambda: w.mg.execute(m))
        note.label("refused removal, set or execution")
        return False
    if kind == "clear":
        with sut("clear"):
            w.mg.clear()
        for m in list(w.present):
            w.note_removed(m)
        w.free.clear()
        w.det.clear()
        note.label("clear")
        return False
    return None


def shape_labels(w, note):
    """Diamonds are where updates get lost"""
    shared = any(sum(1 for m in w.present if v in m.inputs) > 1 for v in w.vars())
    chained = any(v in w.det for m in w.present for v in m.inputs)
    note.label("variable read by several methods", shared)
    note.label("method reading a determined variable", chained)
    return shared, chained


# ---------------------------------------------------------------- C04

op04 = mix(op_met, op_met, op_met, op_met, op_flip, op_mut, op_set, op_set, op_set, op_set, op_var, op_var, op_exec, op_again, op_prop, op_remm,
                 op_remv, op_readd)


@check("C04", "history", st.tuples(names(3, 7), started(histories(op04, 40))), quick=900,
       rule="histories of up to 40 operations with immediate propagation on acyclic method graphs over up to 7 "
            "variables; after most operations every method is re-evaluated on the current inputs; non-trivial: a "
            "variable is set while some method reads a variable that another method determines")
def c04_history(case, note):
    ns, ops = case
    w = World(ns)
    for op in ops:
        r = step(w, op, note, valid_only=True, defer=False)
        shared, chained = shape_labels(w, note)
        if op[0] in ("set", "flip") and r is not None:
            note.count(chained)
        if r is not None and (len(repr(op)) + len(w.present)) % 4:
            # sometimes the next operation follows at once
            w.check_all(op)
    w.check_all("the last operation")


def layered(w, r, n_methods, n_vars, defer=False):
    """Adds a random acyclic layered network, methods in random order"""
    mets = []
    for k in range(n_methods):
        o = 3 + k
        fan = 1 + r.below(4)
        ins = uniq(w.ns[max(0, o - 1 - r.below(min(o, 6)))] for _ in range(fan))
        mets.append((ins, [w.ns[o]]))
    for i in range(len(mets) - 1, 0, -1):
        j = r.below(i + 1)
        mets[i], mets[j] = mets[j], mets[i]
    return mets


@check("C04", "network", st.tuples(seeds, st.integers(3, 25), st.lists(st.tuples(st.integers(0, 2), val), min_size=1,
                                                                     max_size=8), st.booleans()), quick=250,
       rule="random layered networks of up to 25 methods added in shuffled order, then sets of the sources; "
            "non-trivial: at least five methods")
def c04_network(case, note):
    seed, k, sets, preset = case
    r = Lcg(seed)
    w = World(sized_names(seed, k + 3))
    w.limit = 200000
    for i in range(3):
        step(w, ("var", i, 1 + i if preset else None), note, True, False)
    for ins, outs in layered(w, r, k, k + 3):
        try_add(w, w.make(ins, outs, r.below(60), 0 if r.below(8) else 1), True, note, True)
        w.check_all("adding a method of the network")
    note.count(k >= 5)
    shape_labels(w, note)
    for i, x in sets:
        v = w.ns[i]
        if v in w.free:
            with sut("set({!r}, {!r})".format(v, x)):
                w.mg.set(v, x)
            w.free[v] = x
            w.check_all(("set", v, x))


# ---------------------------------------------------------------- C05

op05 = mix(op_met, op_met, op_met, op_met, op_set, op_set, op_set, op_set, op_set, op_set, op_set, op_set, op_flip, op_mut, op_var,
           op_prop, op_exec, op_again, op_remm, op_remv, op_readd)


@check("C05", "schedule", st.tuples(names(3, 7), started(histories(op05, 40)), st.sampled_from(["prop", "set", "met", "exec"])),
       quick=700,
       rule="histories of deferred and immediate changes compared, whenever settled, with a twin graph in which every "
            "change is propagated immediately; non-trivial: at least two deferred changes were pending at once")
def c05_schedule(case, note):
    ns, ops, last = case
    a, b = World(ns), World(ns)
    pending = 0
    quiet = type(note)()

    def settle(op):
        a.check_all(op)
        b.check_all(op)
        vals = {v: a.value(v) for v in a.vars()}
        for v, x in vals.items():
            y = b.value(v)
            require(same(x, y), "after {!r} variable {!r} is {!r} with deferred and {!r} with immediate propagation", op,
                    v, x, y)
        with sut("propagate"):
            a.mg.propagate()
        for v, x in vals.items():
            require(same(a.value(v), x), "propagating again changed {!r} from {!r} to {!r}", v, x, a.value(v))
        a.problem_check(op)

    for op in ops:
        determined = list(a.det)
        runs = {m: m.runs for m in a.present}
        r = step(a, op, note, valid_only=True, defer=True)
        if r is False and op[0] != "again":
            for m in runs:
                require(m.runs == runs[m], "{!r} was run although {!r} does not propagate", m, op)
        step(b, op, quiet, valid_only=True, defer=False)
        if op[0] in ("remm", "remv"):
            # variables that are no longer determined keep what they had, which may be from before pending changes
            note.label("removal with changes pending", pending > 0 and r is not None)
            for v in determined:
                if v in a.free and not same(a.free[v], b.free[v]):
                    step(b, ("set", list(b.free).index(v), a.free[v], True), quiet, valid_only=True, defer=False)
        a.problem_check(op)
        a.check_structure(op)
        # values given to undetermined variables are readable at once, settled or not
        a.check_free(op)
        if r:
            note.label("settled after {} pending".format(min(pending, 3)))
            settle(op)
            pending = 0
        elif r is False and op[0] in ("met", "set", "flip", "readd"):
            pending += 1
            note.count(pending >= 2)
    # settle by one propagating operation
    if last == "set" and a.free:
        fin = ("set", 0, 5, True)
    elif last == "met":
        fin = ("met", [], [0, 1, 2, 3], 4, 0, True)
    elif last == "exec" and a.present:
        fin = ("exec", 0)
    else:
        fin = ("prop",)
    r = step(a, fin, note, valid_only=True, defer=True)
    step(b, fin, quiet, valid_only=True, defer=False)
    if not r:
        step(a, ("prop",), note, True, True)
    settle(fin)


@check("C05", "network", st.tuples(seeds, st.integers(3, 20), st.lists(st.lists(st.tuples(st.integers(0, 2), val),
                                                                              min_size=1, max_size=5), max_size=5),
                                   st.booleans()), quick=250,
       rule="random layered networks of up to 20 methods added without propagation, then batches of deferred sets each "
            "followed by one propagation; non-trivial: at least five methods and one batch of two sets")
def c05_network(case, note):
    seed, k, batches, preset = case
    r = Lcg(seed)
    w = World(sized_names(seed, k + 3))
    w.limit = 200000
    for i in range(3):
        step(w, ("var", i, 1 + i if preset else None), note, True, True)
    for ins, outs in layered(w, r, k, k + 3):
        try_add(w, w.make(ins, outs, r.below(60), 0 if r.below(8) else 1), False, note, True)
    step(w, ("prop",), note, True, True)
    w.check_all("adding a network and propagating")
    note.count(k >= 5 and any(len(b) > 1 for b in batches))
    for batch in batches:
        for i, x in batch:
            v = w.ns[i]
            if v in w.free:
                runs = w.executions
                with sut("set({!r}, {!r}, prop=False)".format(v, x)):
                    w.mg.set(v, x, prop=False)
                require(w.executions == runs, "setting {!r} without propagation ran a method", v)
                w.free[v] = x
        w.check_free(batch)
        step(w, ("prop",), note, True, True)
        w.check_all(batch)


# ---------------------------------------------------------------- C06

op06 = mix(op_met, op_met, op_met, op_met, op_met, op_met, op_set, op_set, op_var, op_again, op_readd, op_readd, op_remm,
                 op_prop)


@check("C06", "history", st.tuples(names(2, 6), histories(op06, 40)), quick=900,
       rule="histories with additions of arbitrary methods over up to 6 variables, each verdict compared with a "
            "reference search; non-trivial: something is accepted after a refusal")
def c06_history(case, note):
    ns, ops = case
    w = World(ns)
    refused_before = False
    for op in ops:
        before = len(w.gone)
        values = {v: w.value(v) for v in w.vars()}
        runs = sum(m.runs for m in w.present)
        r = step(w, op, note, valid_only=False, defer=True)
        if op[0] in ("met", "readd") and r is not None:
            if len(w.gone) > before or not r and op[0] == "readd":
                refused_before = True
                for v, x in values.items():
                    if v in w.free or v in w.det:
                        got = w.value(v)
                        require(op[0] == "readd" or same(got, x), "refusing a method changed {!r} from {!r} to {!r}", v,
                                x, got)
            elif refused_before:
                note.count()
        w.problem_check(op)
        w.check_structure(op)
        w.check_free(op)
        if r:
            w.check_fixpoint(op)
    step(w, ("prop",), note, False, True)
    w.check_all("final propagation")


@check("C06", "long_cycle", st.tuples(seeds, st.integers(1, 30), st.integers(0, 3)), quick=150,
       rule="chains of up to 30 methods added in shuffled order, then closed to a cycle from any point, then extended; "
            "every case with at least three methods is non-trivial")
def c06_cycle(case, note):
    seed, k, extra = case
    r = Lcg(seed)
    w = World(sized_names(seed, k + 8))
    order = list(range(k))
    for i in range(k - 1, 0, -1):
        j = r.below(i + 1)
        order[i], order[j] = order[j], order[i]
    step(w, ("var", 0, 1), note, True, False)
    for i in order:
        ins = [w.ns[i]] + [w.ns[k + 1 + e] for e in range(extra)]
        require(try_add(w, w.make(ins, [w.ns[i + 1]], 1 + r.below(50), 0), True, note, True), "chain refused")
    note.count(k >= 3)
    hi = r.below(k + 1)
    lo = 0
    m = w.make([w.ns[hi]], [w.ns[lo]], 3, 0)
    try_add(w, m, True, note, True)
    w.check_all("closing the chain")
    for i in range(1 + r.below(3)):
        a, b = r.below(k + 1), r.below(k + 4)
        try_add(w, w.make([w.ns[a]], uniq([w.ns[b], w.ns[k + 5 + i]]), 3, 0), bool(r.below(2)), note, True)
        w.check_structure("more methods")
    if w.ns[0] in w.free:
        with sut("set"):
            w.mg.set(w.ns[0], 9)
        w.free[w.ns[0]] = 9
    step(w, ("prop",), note, True, False)
    w.check_all("propagation after refusals")


# ---------------------------------------------------------------- C07

op07 = mix(op_met, op_met, op_met, op_met, op_set, op_set, op_set, op_var, op_var, op_remm, op_remv, op_remv,
                 op_bad, op_bad, op_readd, op_readd, op_prop, op_exec, op_met, op_set)
op07 = mix(*[op07] * 12 + [op_flip])
op07c = mix(*[op07] * 60 + [op_clear] + [op07] * 60)


@check("C07", "history", st.tuples(names(3, 7), started(histories(op07c, 40))), quick=900,
       rule="histories with removals of variables and methods, clears, refused removals and sets of unknown variables, "
            "with pending or propagated changes; non-trivial: a set or an addition after a removal or refusal")
def c07_history(case, note):
    ns, ops = case
    w = World(ns)
    removed = False
    for op in ops:
        values = {v: w.value(v) for v in w.vars()}
        r = step(w, op, note, valid_only=True, defer=True)
        if r is None:
            continue
        if op[0] in ("remm", "remv", "bad"):
            removed = True
            # everything else keeps its value
            for v, x in values.items():
                if v in w.free or v in w.det:
                    got = w.value(v)
                    require(same(got, x), "{!r} changed variable {!r} from {!r} to {!r}", op, v, x, got)
        elif op[0] == "clear":
            removed = True
        elif op[0] in ("met", "set", "readd", "var"):
            note.count(removed)
        w.problem_check(op)
        w.check_structure(op)
        w.check_free(op)
        if r:
            w.check_fixpoint(op)
    step(w, ("prop",), note, True, True)
    w.check_all("final propagation")
    # every remaining variable can be removed, and then nothing is left
    for v in w.vars():
        with sut("rem_variable({!r})".format(v)):
            w.mg.rem_variable(v)
    w.present, w.free, w.det = [m for m in w.present if not m.inputs and not m.outputs], {}, {}
    w.check_structure("removing every variable")


def chain(w, n, prop, r):
    """A chain of n methods"""
    with sut("add_variable"):
        w.mg.add_variable(w.ns[0], 1)
    w.free[w.ns[0]] = 1
    for i in range(n):
        m = w.make([w.ns[i]], [w.ns[i + 1]], 1 + r.below(4), 0)
        with sut("add_method, the {}th of a chain".format(i + 1)):
            w.mg.add_method(m, prop=prop)
        w.note_added(m)


deep_case = st.tuples(seeds, st.integers(1050, 1400), st.booleans(), st.sampled_from([2, "x", None, True]))


def deep(case, note, prop):
    seed, n, shape, x = case
    w = World(sized_names(seed, n + 1, True))
    w.limit = n * n + 20000             # scheduling may be naive
    chain(w, n, prop, Lcg(seed))
    note.count()
    if shape:
        # two long arms that meet
        m = w.make([w.ns[n // 2], w.ns[n]], ["meet"], 3, 0)
        with sut("add_method"):
            w.mg.add_method(m, prop=prop)
        w.note_added(m)
    return w, w.ns[0], x


@check("C04", "deep", deep_case, quick=4, thorough=60,
       rule="chains of more than a thousand methods, and a set of their source; all non-trivial")
def c04_deep(case, note):
    w, v, x = deep(case, note, True)
    w.check_all("building a long chain")
    with sut("set at the start of a long chain"):
        w.mg.set(v, x)
    w.free[v] = x
    w.check_all("setting the start of a long chain")


@check("C05", "deep", deep_case, quick=4, thorough=60,
       rule="chains of more than a thousand methods added without propagation, then one propagation; all non-trivial")
def c05_deep(case, note):
    w, v, x = deep(case, note, False)
    with sut("set without propagation"):
        w.mg.set(v, x, prop=False)
    w.free[v] = x
    with sut("propagating along a long chain"):
        w.mg.propagate()
    w.check_all("propagating along a long chain")


@check("C06", "deep", deep_case, quick=4, thorough=60,
       rule="chains of more than a thousand methods, closed to a cycle; all non-trivial")
def c06_deep(case, note):
    w, v, x = deep(case, note, True)
    n = len(w.ns) - 1
    r = Lcg(case[0] + 1)
    for m in (w.make([w.ns[n]], [v], 3, 0), w.make([w.ns[n - r.below(9)], "new"], ["new2", w.ns[0]], 3, 0)):
        m.dead = True
        refused("closing a chain of {} methods to a cycle".format(n), lambda: w.mg.add_method(m), (MethodGraphCycleException,))
        w.note_refused(m)
    m = w.make([w.ns[r.below(n)]], [w.ns[n - r.below(9)]], 3, 0)
    m.dead = True
    refused("determining a variable of a long chain again", lambda: w.mg.add_method(m),
            (MethodGraphDetermineException,) if m.inputs[0] in w.ns[:n - 9] else
            (MethodGraphDetermineException, MethodGraphCycleException))
    w.note_refused(m)
    m = w.make([w.ns[n]], ["end"], 3, 0)
    with sut("extending the chain"):
        w.mg.add_method(m)
    w.note_added(m)
    with sut("set"):
        w.mg.set(v, x)
    w.free[v] = x
    w.check_all("setting the start of a long chain")


@check("C07", "deep", deep_case, quick=4, thorough=60,
       rule="chains of more than a thousand methods, cut in the middle and then cleared; all non-trivial")
def c07_deep(case, note):
    w, v, x = deep(case, note, True)
    i = 1 + Lcg(case[0] + 1).below(len(w.ns) - 2)
    step(w, ("remv", w.vars().index(w.ns[i])), note, True, False)
    w.check_structure("cutting a long chain")
    with sut("set"):
        w.mg.set(v, x)
    w.free[v] = x
    w.check_all("setting the start of a cut chain")
    step(w, ("clear",), note, True, False)
    w.check_structure("clearing a long chain")


# ---------------------------------------------------------------- built-in methods, and graphs that share methods

class OwnAdd(AddMethod):
    """An addition like any other"""


class OwnSet(SetMethod):
    """A constant like any other"""


class OwnAssign(AssignMethod):
    """An assignment like any other"""


class Twice(Method):
    """A method of two outputs, written the plain way"""

    def __init__(self, a, b, c):
        super(Twice, self).__init__("Twice", [a], [b, c])

    def execute(self, in_map):
        x = in_map[self.inputs[0]]
        return {self.outputs[0]: 2 * x, self.outputs[1]: -x}


class Used(object):
    """A method object together with what it does"""

    def __init__(self, kind, a, b, c, x):
        self.kind, self.x = kind, x
        with sut("constructing " + kind):
            self.obj = {"add": lambda: AddMethod(a, b, c), "sub": lambda: SubMethod(a, b, c),
                        "set": lambda: SetMethod(c, x), "assign": lambda: AssignMethod(c, a),
                        "twice": lambda: Twice(a, b, c), "own add": lambda: OwnAdd(a, b, c),
                        "own set": lambda: OwnSet(c, x), "own assign": lambda: OwnAssign(c, a)}[kind]()
        kind = kind.replace("own ", "")
        self.inputs = {"add": [a, b], "sub": [a, b], "set": [], "assign": [a], "twice": [a]}[kind]
        self.outputs = [b, c] if kind == "twice" else [c]
        self.dead = False

    def outs(self, v):
        kind = self.kind.replace("own ", "")
        if kind == "add":
            return [v[0] + v[1]]
        if kind == "sub":
            return [v[0] - v[1]]
        if kind == "twice":
            return [2 * v[0], -v[0]]
        return [v[0]] if kind == "assign" else [self.x]

    def __repr__(self):
        return "{} {!r} -> {!r}".format(self.kind, self.inputs, self.outputs)


class Sharing(World):
    """A graph that has its methods in common with other graphs"""

    pending = False

    def check_structure(self, after):
        with sut("variables() and methods()"):
            vs, ms = list(self.mg.variables()), list(self.mg.methods())
        want = self.vars()
        require(len(vs) == len(want) and set(vs) == set(want), "after {!r} the variables are {!r}, expected {!r}",
                after, vs, want)
        require(len(ms) == len(self.present) and set(map(id, ms)) == {id(m.obj) for m in self.present},
                "after {!r} the methods are {!r}, expected {!r}", after, ms, self.present)


def shared_step(w, mets, op, note, valid_only):
    """Applies one operation to one of the graphs; returns None if nothing happened"""
    kind, g = op[0], w.mg
    if kind in ("new", "share"):
        prop = op[-1]
        if kind == "new":
            a, b, c = (pick(w.ns, i) for i in op[3])
            if op[2] == "twice" and b == c:
                return None
            m = Used(op[2], a, b, c, op[4])
        elif mets:
            m = mets[op[2] % len(mets)]
        else:
            return None
        if m in w.present:
            with sut("adding a method again"):
                g.add_method(m.obj, prop=prop)
            return True
        double, cyclic = w.verdict(m.inputs, m.outputs)
        if (double or cyclic) and valid_only:
            return None
        if m not in mets:
            mets.append(m)
        if double or cyclic:
            note.label("refused")
            refused("adding {!r}, which is {}".format(m, "doubly determined" if double else "cyclic"),
                    lambda: g.add_method(m.obj, prop=prop),
                    ([MethodGraphDetermineException] if double else []) + ([MethodGraphCycleException] if cyclic else []))
            w.note_refused(m)
            return True
        with sut("adding {!r}".format(m)):
            g.add_method(m.obj) if prop and m.x else g.add_method(m.obj, prop=prop)
        if m in w.gone:
            w.gone.remove(m)
        w.note_added(m)
        w.pending = not prop
        return True
    if kind == "var":
        v = pick(w.ns, op[2])
        with sut("add_variable"):
            g.add_variable(v, op[3])
        if v not in w.free and v not in w.det:
            w.free[v] = op[3]
        return True
    if kind == "set" and w.free:
        v = list(w.free)[op[2] % len(w.free)]
        with sut("set({!r}, {!r}, prop={})".format(v, op[3], op[4])):
            g.set(v, op[3], prop=op[4])
        w.free[v] = op[3]
        w.pending = not op[4]
        return True
    if kind == "remm" and w.present:
        m = w.present[op[2] % len(w.present)]
        kept = {v: w.value(v) for v in m.outputs}
        with sut("rem_method"):
            g.rem_method(m.obj)
        w.note_removed(m)
        w.free.update(kept)
        note.label("method removed")
        return True
    if kind == "remv" and w.vars():
        v = w.vars()[op[2] % len(w.vars())]
        gone = [m for m in w.present if v in m.inputs or v in m.outputs]
        kept = {x: w.value(x) for m in gone for x in m.outputs if x != v}
        with sut("rem_variable({!r})".format(v)):
            g.rem_variable(v)
        for m in gone:
            w.note_removed(m)
        w.free.update(kept)
        w.free.pop(v, None)
        w.det.pop(v, None)
        note.label("variable removed")
        return True
    if kind == "absent":
        others = [m for m in mets if m not in w.present]
        if others:
            m = others[op[2] % len(others)]
            note.label("a method that is only elsewhere refused")
            refused("removing a method that is not in this graph", lambda: g.rem_method(m.obj))
            refused("executing a method that is not in this graph", lambda: g.execute(m.obj))
            return True
    if kind == "prop":
        with sut("propagate"):
            g.propagate()
        w.pending = False
        return True
    if kind == "exec" and w.present:
        with sut("execute"):
            g.execute(w.present[op[2] % len(w.present)].obj)
        w.pending = False
        return True
    if kind == "clear":
        with sut("clear"):
            g.clear()
        for m in list(w.present):
            w.note_removed(m)
        w.free.clear()
        w.det.clear()
        w.pending = False
        return True
    return None


def builtin_history(case, note, valid_only, defer):
    ns, ops = case
    ws, mets = [Sharing(ns), Sharing(ns)], []
    for op in ops:
        if not defer and op[0] in ("new", "share", "set"):
            op = op[:-1] + (True,)
        w, other = ws[op[1]], ws[1 - op[1]]
        values = {v: other.value(v) for v in other.vars()}
        mine = {v: w.value(v) for v in w.vars()}
        refusals = list(w.gone)
        if shared_step(w, mets, op, note, valid_only) is None:
            continue
        note.count(any(m in w.present for m in other.present))
        for x in ws:
            x.check_structure(op)
            x.check_free(op)
            if not x.pending:
                x.check_fixpoint(op)
        for v, x in values.items():
            require(same(other.value(v), x), "{!r} on another graph changed {!r} from {!r} to {!r}", op, v, x,
                    other.value(v))
        if op[0] in ("remm", "remv", "absent") or op[0] in ("new", "share") and w.gone != refusals and len(
                w.gone) > len(refusals):
            for v, x in mine.items():
                if v in w.free or v in w.det:
                    require(same(w.value(v), x), "{!r} changed {!r} from {!r} to {!r}", op, v, x, w.value(v))
    for w in ws:
        with sut("propagate"):
            w.mg.propagate()
        w.check_structure("the final propagation")
        w.check_free("the final propagation")
        w.check_fixpoint("the final propagation")


which = mix(st.just(0), st.just(0), st.just(1))
number = st.sampled_from([0, 1, 2, 3, 5, -4, 10 ** 20, 0.5, -0.25, None, nan, True, False])
b_new = st.tuples(st.just("new"), which, st.sampled_from(["add", "sub", "set", "assign", "twice", "own add", "own set",
                                                          "own assign"]),
                  st.tuples(ix, ix, ix), number, st.booleans())
b_share = st.tuples(st.just("share"), which, ix, st.booleans())
b_var = st.tuples(st.just("var"), which, ix, number)
b_set = st.tuples(st.just("set"), which, ix, number, st.booleans())
b_remm = st.tuples(st.just("remm"), which, ix)
b_remv = st.tuples(st.just("remv"), which, ix)
b_absent = st.tuples(st.just("absent"), which, ix)
b_exec = st.tuples(st.just("exec"), which, ix)
b_prop = st.tuples(st.just("prop"), which)
b_clear = st.tuples(st.just("clear"), which)
b_common = [b_new] * 4 + [b_share] * 4 + [b_set] * 4 + [b_var, b_exec, b_prop]


def builtin_case(*more):
    """Two graphs that both start with a few variables and methods, most of them in common"""
    start = st.builds(lambda xs, ms: [("var", g, i, x) for g in (0, 1) for i, x in enumerate(xs)] + ms + [
        ("share", 1, i, True) for i in range(len(ms))],
        st.lists(number.map(lambda x: 7 if x is None else x), min_size=1, max_size=4), st.lists(b_new, min_size=1, max_size=4))
    h = histories(mix(*(b_common + list(more))), 30)
    return st.tuples(names(3, 7), mix(h, *[st.builds(lambda a, b: a + b, start, h)] * 3))


B_RULE = ("histories of up to 30 operations on two method graphs that share their method objects (the built-in "
          "additions, subtractions, assignments and constants, classes derived from them, and a plain method of two "
          "outputs), every graph compared with its own model; {}non-trivial: the graphs have a method in common")


@check("C04", "builtin", builtin_case(b_remm, b_exec), quick=500, rule=B_RULE.format("propagation is immediate; "))
def c04_builtin(case, note):
    builtin_history(case, note, True, False)


@check("C05", "builtin", builtin_case(b_prop, b_prop, b_remm), quick=500,
       rule=B_RULE.format("propagation is mostly deferred; "))
def c05_builtin(case, note):
    builtin_history(case, note, True, True)


@check("C06", "builtin", builtin_case(b_new, b_new, b_new, b_remm), quick=500,
       rule=B_RULE.format("arbitrary methods are added; "))
def c06_builtin(case, note):
    builtin_history(case, note, False, True)


@check("C07", "builtin", builtin_case(b_remm, b_remm, b_remv, b_remv, b_absent, b_absent, b_clear), quick=500,
       rule=B_RULE.format("with many removals; "))
def c07_builtin(case, note):
    builtin_history(case, note, True, True)


# ---------------------------------------------------------------- scale: wide graphs and long histories

def long_ops(r, n, kinds, n_ix):
    """A long history of operations, expanded from one integer"""
    ops = []
    for i in range(n):
        k = kinds[r.below(len(kinds))]
        i1, b = r.below(n_ix), bool(r.below(2))
        if k == "met":
            ops.append(("met", [r.below(n_ix) for _ in range(r.below(4))], [r.below(n_ix) for _ in range(1 + r.below(2))],
                        r.below(61), [0, 0, 0, 0, 1, 2, 3][r.below(7)], b))
        elif k == "set":
            ops.append(("set", i1, VALS[r.below(len(VALS))] if b else 50 + i, bool(r.below(2))))
        elif k == "bad":
            ops.append(("bad", r.below(12), i1, 3, b))
        elif k == "var":
            ops.append(("var", i1, VALS[r.below(len(VALS))]))
        elif k in ("flip", "readd"):
            ops.append((k, i1, b))
        elif k in ("clear", "prop"):
            ops.append((k,))
        else:
            ops.append((k, i1))
    return ops


long_case = st.tuples(seeds, st.integers(150, 400), st.integers(4, 14), st.booleans())


def long_names(case):
    return [H("v%d" % i, i % 3) for i in range(case[2])] if case[3] else sized_names(case[0], case[2])


MIX04 = ["met"] * 4 + ["set"] * 6 + ["flip", "exec", "again", "remm", "remv", "readd", "var", "prop"]
MIX07 = ["met"] * 5 + ["set"] * 4 + ["remm", "remm", "remv", "bad", "bad", "readd", "readd", "prop", "exec", "var"]


@check("C04", "long", long_case, quick=12, thorough=300,
       rule="histories of up to 400 operations with immediate propagation over up to 14 variables; all non-trivial")
def c04_long(case, note):
    w = World(long_names(case))
    w.limit = 400000
    note.count()
    for op in long_ops(Lcg(case[0]), case[1], MIX04, case[2]):
        if step(w, op, note, valid_only=True, defer=False) is not None:
            w.check_all(op)


@check("C05", "long", long_case, quick=12, thorough=300,
       rule="histories of up to 400 operations of which most are deferred, over up to 14 variables, checked whenever "
            "settled; all non-trivial")
def c05_long(case, note):
    w = World(long_names(case))
    w.limit = 400000
    note.count()
    pending = 0
    for op in long_ops(Lcg(case[0]), case[1], MIX04 + ["set"] * 4, case[2]):
        if op[0] == "prop" and pending < case[0] % 40:
            continue            # long spells without propagation
        if op[0] in ("met", "set") and pending < case[0] % 40:
            op = op[:-1] + (False,)
        runs = {m: m.runs for m in w.present}
        r = step(w, op, note, valid_only=True, defer=True)
        if r is False and op[0] != "again":
            pending += 1
            for m in runs:
                require(m.runs == runs[m], "{!r} was run although {!r} does not propagate", m, op)
        w.problem_check(op)
        w.check_structure(op)
        w.check_free(op)
        if r:
            note.label("settled after at least ten", pending >= 10)
            pending = 0
            w.check_fixpoint(op)
    step(w, ("prop",), note, True, True)
    w.check_all("final propagation")


@check("C06", "long", long_case, quick=12, thorough=300,
       rule="histories of up to 400 operations, half of them additions of arbitrary methods, over up to 14 variables; "
            "all non-trivial")
def c06_long(case, note):
    w = World(long_names(case))
    w.limit = 400000
    note.count()
    kinds = ["met"] * 8 + ["set", "set", "var", "again", "readd", "readd", "remm", "remm", "prop"]
    for op in long_ops(Lcg(case[0]), case[1], kinds, case[2]):
        r = step(w, op, note, valid_only=False, defer=True)
        w.problem_check(op)
        w.check_structure(op)
        w.check_free(op)
        if r:
            w.check_fixpoint(op)
    step(w, ("prop",), note, False, True)
    w.check_all("final propagation")


@check("C07", "long", long_case, quick=12, thorough=300,
       rule="histories of up to 400 operations with many removals over up to 14 variables; all non-trivial")
def c07_long(case, note):
    w = World(long_names(case))
    w.limit = 400000
    note.count()
    for op in long_ops(Lcg(case[0]), case[1], MIX07, case[2]):
        values = {v: w.value(v) for v in w.vars()}
        r = step(w, op, note, valid_only=True, defer=True)
        if r is None:
            continue
        if op[0] in ("remm", "remv", "bad"):
            for v, x in values.items():
                if v in w.free or v in w.det:
                    got = w.value(v)
                    require(same(got, x), "{!r} changed variable {!r} from {!r} to {!r}", op, v, x, got)
        w.problem_check(op)
        w.check_structure(op)
        w.check_free(op)
        if r:
            w.check_fixpoint(op)
    step(w, ("prop",), note, True, True)
    w.check_all("final propagation")


wide_case = st.tuples(seeds, st.integers(10, 90), st.integers(2, 50), st.booleans(), st.booleans())


def wide_methods(case, w, note):
    """Sources, a hub read by many methods, a method with many inputs and outputs, and readers of these outputs"""
    seed, n, k, gather, early = case
    r = Lcg(seed)
    w.limit = 400000
    w.ns = [H("s%d" % i, i % 5) for i in range(k)] if seed % 2 else sized_names(seed, k)
    for i in range(k):
        step(w, ("var", i, 1 + r.below(60) if i or early else None), note, True, True)
    mets = [(["hub"], ["leaf%d" % i], r.below(60)) for i in range(n)]
    mets += [(list(w.ns), ["hub"] + ["side%d" % i for i in range(r.below(k))], 1 + 6 * r.below(9))]
    if gather:
        mets.append((["leaf%d" % i for i in range(n)], ["last"], 1 + r.below(5)))
        mets.append((["last", "hub", w.ns[0]], ["end%d" % i for i in range(n // 2)], 1 + r.below(5)))
    for i in range(len(mets) - 1, 0, -1):
        j = r.below(i + 1)
        mets[i], mets[j] = mets[j], mets[i]
    return r, mets


def wide(case, note, prop):
    w = World([])
    r, mets = wide_methods(case, w, note)
    for ins, outs, c in mets:
        require(try_add(w, w.make(ins, outs, c, 0), prop, note, True), "an acyclic wide graph was refused")
    if not prop:
        step(w, ("prop",), note, True, True)
    w.check_all("building a wide graph")
    note.count()
    return w, r


def wide_set(w, r, prop, x=None):
    v = w.ns[r.below(len(w.ns))]
    if v in w.free:
        x = 100 + r.below(900) if x is None else x
        with sut("set({!r}, {!r})".format(v, x)):
            w.mg.set(v, x, prop=prop)
        w.free[v] = x


@check("C04", "wide", wide_case, quick=12, thorough=300,
       rule="graphs with a variable read by up to 90 methods and methods of up to 90 inputs or 50 outputs; all "
            "non-trivial")
def c04_wide(case, note):
    w, r = wide(case, note, True)
    for i in range(3):
        wide_set(w, r, True)
        w.check_all("a set in a wide graph")


@check("C05", "wide", wide_case, quick=12, thorough=300,
       rule="the same wide graphs, added without propagation, and batches of up to 50 deferred sets; all non-trivial")
def c05_wide(case, note):
    w, r = wide(case, note, False)
    for i in range(3):
        runs = w.executions
        for j in range(r.below(2 * len(w.ns)) + 1):
            wide_set(w, r, False)
        require(w.executions == runs, "sets without propagation ran a method")
        w.check_free("deferred sets")
        step(w, ("prop",), note, True, True)
        w.check_all("settling deferred sets in a wide graph")


@check("C06", "wide", wide_case, quick=12, thorough=300,
       rule="additions to the same wide graphs of methods with up to 90 outputs, one of which is determined already or "
            "closes a cycle; all non-trivial")
def c06_wide(case, note):
    w, r = wide(case, note, True)
    n = case[1]
    fresh = ["new%d" % i for i in range(n)]
    for i in range(3):
        outs = list(fresh[:1 + r.below(n)])
        kind = r.below(3)
        outs[r.below(len(outs))] = (w.ns + ["leaf%d" % r.below(n), "hub"])[-1 - r.below(2)] if kind == 0 else w.ns[
            r.below(len(w.ns))]
        ins = [["leaf%d" % r.below(n)], ["side0" if "side0" in w.det else "hub", "other"], ["other"]][kind]
        try_add(w, w.make(ins, outs, 3, 0), bool(r.below(2)), note, True)
        w.check_structure("adding to a wide graph")
    wide_set(w, r, False)
    step(w, ("prop",), note, True, True)
    w.check_all("settling a wide graph")


@check("C07", "wide", wide_case, quick=12, thorough=300,
       rule="removal of the hub, of a source or of the wide method from the same wide graphs, then sets and re-additions; "
            "all non-trivial")
def c07_wide(case, note):
    w, r = wide(case, note, True)
    for i in range(3):
        kind = r.below(4)
        values = {v: w.value(v) for v in w.vars()}
        cand = [v for v in w.vars() if v in w.ns or v == "hub"] if kind == 0 else list(w.det)
        if kind < 2 and cand:
            op = ("remv", w.vars().index(cand[r.below(len(cand))]))
        elif kind == 2:
            op = ("readd", r.below(9), True)
        else:
            op = ("remm", r.below(200))
        done = step(w, op, note, True, True)
        if op[0] != "readd" and done is not None:
            for v, x in values.items():
                if v in w.free or v in w.det:
                    require(same(w.value(v), x), "{!r} changed {!r} from {!r} to {!r}", op, v, x, w.value(v))
        w.check_structure(op)
        wide_set(w, r, True)
        w.check_free(op)
        w.problem_check(op)
    step(w, ("prop",), note, True, True)
    w.check_all("settling a wide graph")


# ---------------------------------------------------------------- C08

class Weird(object):
    """A value whose equality is unusual; supports + and -"""

    def __init__(self, name, mode):
        self.name, self.mode = name, mode

    def __eq__(self, other):
        if self.mode == 0:
            raise ValueError("not comparable")
        if self.mode == 1:
            return True
        if self.mode == 2:
            return np.array([True, False])
        return False

    def __ne__(self, other):
        if self.mode == 0:
            raise ValueError("not comparable")
        if self.mode == 2:
            return np.array([True, False])
        return self.mode == 3

    __hash__ = None

    def __bool__(self):
        raise ValueError("no truth value")

    def __add__(self, other):
        return ("sum", id(self), id(other))

    def __sub__(self, other):
        return ("difference", id(self), id(other))

    def __repr__(self):
        return "Weird({!r}, {!r})".format(self.name, self.mode)


small = st.integers(-20, 20)
kinds = mix(
    st.tuples(st.just("int"), small, small),
    st.tuples(st.just("int"), st.integers(-10 ** 30, 10 ** 30), small),
    st.tuples(st.just("float"), st.floats(-1e6, 1e6, allow_nan=False), st.floats(-1e6, 1e6, allow_nan=False)),
    st.tuples(st.just("float"), st.sampled_from([nan, inf, -inf, 0.0, 1.5]), st.sampled_from([nan, inf, -inf, -0.0, 2.5])),
    st.tuples(st.just("fraction"), small, st.integers(1, 9)),
    st.tuples(st.just("vector"), st.tuples(small, small), st.tuples(small, small)),
    st.tuples(st.just("vector"), st.tuples(st.just(0), st.just(0)), st.tuples(small, small)),
    st.tuples(st.just("array"), st.lists(small, min_size=2, max_size=2), st.lists(small, min_size=2, max_size=2)),
    st.tuples(st.just("weird"), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("bool"), st.booleans(), st.booleans()),
    st.tuples(st.just("str"), st.text("abc", max_size=3), st.text("abc", max_size=3)),
    st.tuples(st.just("list"), st.lists(small, max_size=3), st.lists(small, max_size=3)),
    st.tuples(st.just("set"), st.sets(small, max_size=3), st.sets(small, max_size=3)),
    st.tuples(st.just("object"), st.integers(0, 20), st.integers(0, 20)),
)

#: values that something else could be done with than to pass them on
OBJECTS = [int, str, dict, Weird, len, max, lambda: 7, lambda x: x, Ellipsis, NotImplemented, ValueError, ValueError("x"),
           iter([1, 2]), range(3), b"abc", AddMethod, np.int64(3), type, {"a": 1}, MethodGraph]


def build(kind):
    t, a, b = kind
    if t == "fraction":
        return Fraction(a, b), Fraction(b, 7)
    if t == "vector":
        return Vector(*a), Vector(*b)
    if t == "array":
        return np.array(a), np.array(b)
    if t == "object":
        return OBJECTS[a % len(OBJECTS)], OBJECTS[b % len(OBJECTS)]
    if t == "weird":
        return Weird("a", a), Weird("b", b)
    return a, b


def exact(a, b):
    """Same value, for every kind of value"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Weird):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool((a == b).all())
    if isinstance(a, Vector):
        return a.x == b.x and a.y == b.y
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def supports(kind, op):
    if kind[0] == "object":
        return op not in ("add", "sub")
    if op == "sub":
        return kind[0] not in ("str", "list")
    if op == "add":
        return kind[0] != "set"
    return True


def reference(op, a, b):
    return a + b if op == "add" else a - b


@check("C08", "direct", st.tuples(st.sampled_from(["add", "sub", "assign", "set"]), kinds, names(3, 3),
                                  st.sampled_from(["both", "both", "both", "no a", "no b", "neither", "none a",
                                                   "none b", "none both"]), st.booleans(), st.booleans()), quick=2500,
       rule="direct execution of each built-in method on operands of many types with complete, incomplete and None "
            "entries; non-trivial: the operands are not plain ints")
def c08_direct(case, note):
    op, kind, ns, present, shared, extra = case
    if not supports(kind, op):
        return
    a, b = build(kind)
    va, vb, vc = ns
    if shared:
        vb, b = va, a
    note.count(kind[0] != "int")
    note.label(op)
    note.label(kind[0])
    note.label(present)
    in_map = {va: a, vb: b}
    if "no a" in present or present == "neither":
        in_map.pop(va, None)
    if "no b" in present or present == "neither":
        in_map.pop(vb, None)
    if present in ("none a", "none both"):
        in_map[va] = None
    if present in ("none b", "none both"):
        in_map[vb] = None
    if extra:
        in_map[vc] = "previous"
    copy = dict(in_map)
    with sut("constructing " + op):
        met = {"add": lambda: AddMethod(va, vb, vc), "sub": lambda: SubMethod(va, vb, vc),
               "assign": lambda: AssignMethod(vc, va), "set": lambda: SetMethod(vc, a)}[op]()
    with sut("executing {} on {!r}".format(op, in_map)):
        out = met.execute(in_map)
    require(isinstance(out, dict), "{} returned {!r}, not a map", op, out)
    require(list(in_map) == list(copy) and all(in_map[k] is copy[k] for k in copy), "{} changed its input map", op)
    require(set(out) <= {vc}, "{} gives values for {!r}", op, list(out))
    if op == "set":
        require(vc in out and out[vc] is a, "set method gives {!r} instead of {!r}", out, a)
    elif op == "assign":
        if va not in in_map:
            require(out.get(vc) is None, "assignment without input gives {!r}", out)
        else:
            require(out.get(vc) is in_map[va], "assignment gives {!r} instead of {!r}", out, in_map[va])
    elif in_map.get(va) is None or in_map.get(vb) is None:
        require(out.get(vc) is None, "{} with missing input gives {!r}", op, out)
    else:
        want = reference(op, a, b)
        require(vc in out and exact(out[vc], want), "{} gives {!r}, expected {!r}", op, out, want)


program_op = mix(
    st.tuples(st.just("add"), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("sub"), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("assign"), st.integers(0, 9)),
    st.tuples(st.just("const"), st.integers(0, 1)),
)


@check("C08", "program", st.tuples(kinds, kinds, st.lists(program_op, min_size=1, max_size=8), st.booleans(),
                                   names(1, 10), st.sampled_from([None, 0, 1])), quick=700,
       rule="chains of built-in methods in a method graph, evaluated on two rounds of inputs of one type and compared "
            "with direct computation; non-trivial: at least two methods on values that are not plain ints")
def c08_program(case, note):
    first, second, prog, late, ns, unset = case
    if first[0] == "weird":
        # sums of these are not of the same type: only carried
        prog = [p if p[0] in ("assign", "const") else ("assign", p[1]) for p in prog]
    ops = {p[0] for p in prog}
    prog = [p for p in prog if supports(first, p[0])]
    if second[0] != first[0]:
        second = first
    note.label(first[0])
    ns = list(ns) + ["var%d" % i for i in range(12)]
    rounds = [build(first), build(second)]
    mets = []
    nv = 2
    consts = rounds[0]
    for p in prog:
        if p[0] in ("add", "sub"):
            mets.append((p[0], p[1] % nv, p[2] % nv, nv))
        elif p[0] == "assign":
            mets.append(("assign", p[1] % nv, None, nv))
        else:
            mets.append(("const", p[1], None, nv))
        nv += 1
    note.count(len(mets) >= 2 and first[0] != "int")
    with sut("building a method graph"):
        mg = MethodGraph()
        objs = []
        for (op, i, j, k) in mets:
            objs.append({"add": lambda: AddMethod(ns[i], ns[j], ns[k]), "sub": lambda: SubMethod(ns[i], ns[j], ns[k]),
                         "assign": lambda: AssignMethod(ns[k], ns[i]), "const": lambda: SetMethod(ns[k], consts[i])}[op]())
        if not late:
            mg.add_variable(ns[0], rounds[0][0])
            mg.add_variable(ns[1], rounds[0][1])
        for o in objs:
            mg.add_method(o)
        mg.add_variable(ns[0])
        mg.add_variable(ns[1])

    def verify(vals, what):
        vals = list(vals)
        for (op, i, j, k) in mets:
            if op == "const":
                vals.append(consts[i])
            elif op == "assign":
                vals.append(vals[i])
            else:
                vals.append(None if vals[i] is None or vals[j] is None else reference(op, vals[i], vals[j]))
        for k in range(nv):
            with sut("get"):
                got = mg.get(ns[k])
            if first[0] == "weird":
                ok = got is vals[k]
            else:
                ok = exact(got, vals[k])
            require(ok, "{}: variable {!r} is {!r}, expected {!r} ({!r})", what, ns[k], got, vals[k], mets)

    if not late:
        verify(rounds[0], "after adding the methods")
    else:
        verify([None, None], "before setting the inputs")
        with sut("set"):
            mg.set(ns[0], rounds[0][0])
            mg.set(ns[1], rounds[0][1])
        verify(rounds[0], "after setting the inputs")
    with sut("set"):
        mg.set(ns[1], rounds[1][1])
        mg.set(ns[0], rounds[1][0])
    verify(rounds[1], "after setting the inputs again")
    if unset is not None:
        with sut("set to None"):
            mg.set(ns[unset], None)
        vals = list(rounds[1])
        vals[unset] = None
        verify(vals, "after unsetting an input")


# ---------------------------------------------------------------- C09

def num(v):
    """Any value as a number"""
    return v if isinstance(v, int) else 31 + len(v) if hasattr(v, "__len__") else 23


def frozen(v):
    """A hashable stand-in for any value, that keeps its type"""
    if isinstance(v, (list, set, dict)):
        return (type(v).__name__,) + tuple(sorted(v, key=repr))
    return v


class MM(MultiMethod):
    """Records what it is given and returns recognisable results"""

    def __init__(self, inputs, outputs, mode, values=None):
        construct(self, super(MM, self).__init__, "MM", inputs, outputs, mode)
        self.mode = mode
        self.values = values
        self.seen = []
        self.odd = []

    def results(self, vals):
        nums = list(map(num, vals))
        vals = tuple(map(frozen, vals))
        if self.mode == 0:
            return [vals]
        if self.mode == 1:
            return [("first",) + vals, ("second", sum(nums))]
        if self.mode == 2:
            return [sum(nums) % 5, sum(nums) % 3]
        if self.mode == 3:
            return [] if sum(nums) % 2 else [vals]
        if self.mode == 5:
            return [vals] + [(k, sum(nums)) for k in range(6)]
        if self.mode == 6:
            # results are values, whatever they look like
            return [frozenset(vals), frozenset([vals, ("in", sum(nums))]), str(sum(nums)), "", None, ()][sum(nums) % 4:]
        return [sum((i + 1) * v for i, v in enumerate(nums))]

    def multi_execute(self, inmap):
        vals = []
        for v in self.inputs:
            if v not in inmap:
                self.odd.append("input {!r} missing".format(v))
                return []
            x = inmap[v]
            if not (any(same(x, y) for y in self.values[v]) if isinstance(v, MultiVariable) else same(x, self.values[v])):
                self.odd.append("input {!r} given as {!r} when it is {!r}".format(v, x, self.values[v]))
                return []
            vals.append(x)
        self.seen.append(tuple(map(frozen, vals)))
        return self.results(vals)


class OwnMultiVariable(MultiVariable):
    """Multi-valued like any other"""


def multi_variable(*name, own=False):
    return (OwnMultiVariable if own else MultiVariable)(*name)


#: names say nothing about a multi-valued variable: several may have the same one, or one that is a value as well
MULTI_NAMES = [("m1",), ("m1",), (0,), (1,), (2,), ("",), (None,), ("p0",), ((),), ()]


def combos(inputs, values):
    """All assignments: one value per distinct multi-valued input"""
    multi = [v for v in uniq(inputs) if isinstance(v, MultiVariable)]
    out = []
    for c in itertools.product(*[list(values[v]) for v in multi]):
        env = dict(zip(multi, c))
        out.append(tuple(env[v] if v in env else values[v] for v in inputs))
    return out


inputs_spec = st.lists(mix(st.tuples(st.just("p"), st.integers(0, 2)), st.tuples(st.just("m"), st.integers(0, 3)),
                           st.tuples(st.just("m"), st.integers(0, 3))), max_size=5)
inputs_spec = mix(inputs_spec, inputs_spec, inputs_spec.map(lambda s: (s + [("m", 0), ("p", 1), ("m", 1)])[:5]))
one_value = mix(st.integers(-3, 6), st.integers(-3, 6), st.sampled_from(
    [None, "", "ab", (), (1, 2), frozenset(), frozenset([1, 2]), False, 0, "a", 2 ** 53, 2 ** 53 + 1, -1, -2]))
several = st.lists(one_value, min_size=2, max_size=4, unique=True)
multi_values = st.lists(mix(st.lists(one_value, max_size=4), several, several, several), min_size=4, max_size=4)
#: plain variables may well hold collections: these are single values
plain_values = st.lists(mix(st.integers(-3, 6), st.sampled_from(
    ["ab", "", (), (1, 2), [1, 2], [], {1, 2}, set(), frozenset([3, 4]), frozenset(), False, "xyz", [3, 3]])),
    min_size=3, max_size=3)


@check("C09", "combinations", st.tuples(inputs_spec, multi_values, plain_values, st.integers(0, 6), st.booleans(),
                                        st.booleans(), st.lists(st.lists(st.integers(-3, 6), max_size=3), max_size=2)),
       quick=1800,
       rule="user-defined multi-valued methods of up to 5 inputs, run directly and in a method graph, compared with "
            "the product of the input values; non-trivial: at least two distinct multi-valued inputs with at least two "
            "values each")
def c09_combinations(case, note):
    spec, mvals, pvals, mode, in_graph, as_list, updates = case
    with sut("MultiVariable"):
        own = len(updates) == 1
        mvs = [multi_variable(*MULTI_NAMES[(mode * i + i + k) % len(MULTI_NAMES)], own=own and i)
               for i, k in enumerate(map(len, mvals))]
        out = multi_variable(*MULTI_NAMES[(mode + len(spec)) % len(MULTI_NAMES)], own=own and mode % 2)
    ps = ["p0", "p1", "p2"]
    inputs = [ps[i] if t == "p" else mvs[i] for t, i in spec]
    values = {p: x for p, x in zip(ps, pvals)}
    for mv, x in zip(mvs, mvals):
        values[mv] = list(dict.fromkeys(x)) if as_list else set(x)
        if as_list and len(x) > 1 and mode % 2:
            # values need not be hashable
            values[mv] += [[1], [], {2, 3}, {"k": 1}][:1 + len(x) % 4]
    note.count(sum(1 for v in uniq(inputs) if isinstance(v, MultiVariable) and len(values[v]) > 1) >= 2)
    note.label("repeated input", len(uniq(inputs)) < len(inputs))
    note.label("no multi-valued input", not any(isinstance(v, MultiVariable) for v in inputs))
    note.label("empty input", any(isinstance(v, MultiVariable) and not values[v] for v in inputs))
    note.label("plain after multi", any(isinstance(a, MultiVariable) and not isinstance(b, MultiVariable)
                                        for a, b in zip(inputs, inputs[1:])))
    with sut("constructing a multi-valued method"):
        met = MM(inputs, [out], mode, values)
    note.label("collection in a plain input", any(t == "p" and hasattr(pvals[i], "__len__") for t, i in spec))
    note.label("none among several values", any(t == "m" and None in mvals[i] for t, i in spec))

    def verify(got, what):
        require(not met.odd, "{}: {}", what, met.odd[0] if met.odd else "")
        cs = combos(inputs, values)
        want = set()
        for c in cs:
            want.update(met.results(c))
        with sut(what):
            gotset = set(got)
        require(gotset == want, "{}: output holds {!r}, expected {!r} for inputs {!r}", what, got, want, cs)
        require(set(met.seen) == {tuple(map(frozen, c)) for c in cs}, "{}: evaluated for {!r}, expected {!r}", what, met.seen, cs)

    if not in_graph:
        in_map = {v: values[v] for v in inputs}
        in_map[out] = None
        before = {v: (type(x)(x) if isinstance(x, (set, list)) else x) for v, x in in_map.items()}
        with sut("execute"):
            res = met.execute(in_map)
        require(isinstance(res, dict) and set(res) == {out}, "execute returned {!r}", res)
        verify(res[out], "execute")
        require(in_map == before, "execute changed its input map")
        return
    with sut("method graph"):
        mg = MethodGraph()
        for v in uniq(inputs):
            mg.add_variable(v, values[v])
        mg.add_method(met)
        got = mg.get(out)
    verify(got, "in a method graph")
    for k, u in enumerate(updates):
        cand = uniq(inputs)
        if not cand:
            break
        v = cand[k % len(cand)]
        values[v] = set(u) if isinstance(v, MultiVariable) else len(u)
        met.seen = []
        with sut("set"):
            mg.set(v, values[v])
            got = mg.get(out)
        verify(got, "after an update")


@check("C09", "wide", st.tuples(seeds, st.sampled_from(["values", "inputs", "plain"]), st.integers(2, 60), st.booleans()),
       quick=15, thorough=400,
       rule="multi-valued inputs of up to 60 values, up to 9 multi-valued inputs of two values, and up to 60 plain inputs "
            "around one multi-valued one; directly or in a method graph; all non-trivial")
def c09_wide(case, note):
    seed, kind, n, in_graph = case
    r = Lcg(seed)
    note.count()
    with sut("MultiVariable"):
        mvs = [multi_variable("m%d" % i, own=seed % 5 == i % 5) for i in range(9)]
        out = MultiVariable("out")
    values = {}
    if kind == "values":
        inputs = [mvs[0], "p", mvs[1], "q"]
        values = {mvs[0]: {3 * i + r.below(3) for i in range(n)}, mvs[1]: set(range(1 + r.below(3)))}
    elif kind == "inputs":
        inputs = mvs[:2 + n % 8]
        values = {v: {2 * i, r.below(7) * 2 + 1} for i, v in enumerate(inputs)}
    else:
        inputs = ["p%d" % i for i in range(n)]
        inputs.insert(r.below(n + 1), mvs[0])
        values = {mvs[0]: {1, 2, 3}}
    inputs = shuffled(r, inputs)
    for v in inputs:
        if not isinstance(v, MultiVariable):
            values[v] = r.below(50)
    with sut("constructing a multi-valued method"):
        met = MM(inputs, [out], [0, 1, 5][r.below(3)], values)
    cs = combos(inputs, values)
    want = set()
    for c in cs:
        want.update(met.results(c))
    if in_graph:
        with sut("method graph"):
            mg = MethodGraph()
            mg.add_method(met)
            for v in inputs:
                mg.set(v, values[v])
            got = mg.get(out)
    else:
        with sut("execute"):
            got = met.execute(dict(values))[out]
    require(not met.odd, "{}", met.odd[0] if met.odd else "")
    require(set(got) == want, "the output has {} values of which {} are right, expected {}", len(got), len(set(got) & want),
            len(want))
    require(set(met.seen) == set(cs), "evaluated for {} combinations, expected {}", len(set(met.seen)), len(set(cs)))


@check("C09", "sum_prod", st.tuples(st.lists(st.tuples(st.integers(0, 12), st.integers(0, 12)), min_size=1, max_size=4),
                                    st.lists(st.integers(-4, 5), min_size=2, max_size=2),
                                    st.lists(st.sets(st.integers(-3, 4), max_size=3), min_size=2, max_size=2)),
       quick=700,
       rule="chains of sum-and-product methods over plain and multi-valued variables in a method graph; non-trivial: "
            "at least two methods, one reading the other's output")
def c09_sumprod(case, note):
    prog, plain, multi = case
    with sut("MultiVariable"):
        ms = [MultiVariable("x"), MultiVariable("x" if len(prog) % 2 else 2)]
    vs = ["p", "q"] + ms
    vals = [[plain[0]], [plain[1]], sorted(multi[0]), sorted(multi[1])]
    with sut("building"):
        mg = MethodGraph()
        mg.add_variable("p", plain[0])
        mg.add_variable("q", plain[1])
        mg.add_variable(ms[0], multi[0])
        mg.add_variable(ms[1], multi[1])
    chained = False
    for i, j in prog:
        i, j = i % len(vs), j % len(vs)
        if i > 3 or j > 3:
            chained = True
        with sut("adding a sum-and-product method"):
            out = MultiVariable(*[(len(vs),), ("p",), (3,), (-2,), (0,), ("x",)][(i + j + len(vs)) % 6])
            mg.add_method(SumProdMethod(vs[i], vs[j], out))
            got = set(mg.get(out))
        pairs = [(a, a) for a in vals[i]] if i == j else itertools.product(vals[i], vals[j])
        want = set()
        for a, b in pairs:
            want |= {a + b, a * b}
        require(got == want, "sum and product of {!r} and {!r} is {!r}, expected {!r}", vals[i], vals[j], got, want)
        if len(want) > 60:
            break
        vs.append(out)
        vals.append(sorted(want))
    note.count(chained)


@check("C09", "construction", st.lists(st.sampled_from(["m", "m", "p", "n", "same"]), max_size=3), quick=60,
       rule="all short output lists on construction; non-trivial: not exactly one multi-valued output")
def c09_construct(case, note):
    with sut("MultiVariable"):
        one = MultiVariable("same")
        outs = [{"m": MultiVariable(), "p": "plain", "n": 3, "same": one}[o] for o in case]
    if case in (["m"], ["same"]):
        with sut("constructing a multi-valued method"):
            MM(["p"], outs, 0)
    else:
        note.count()
        refused("a multi-valued method with outputs {!r}".format(case), lambda: MM(["p"], outs, 0))
