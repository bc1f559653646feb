"""Runner for the property checks.

A check is a set of sub-checks.  A sub-check is a function over one *case*: plain data that can be written with
repr() and read back with eval() in CASE_NAMESPACE.  Hypothesis generates and shrinks the cases; the sub-check itself
never draws anything, so a saved case replays without the library.

Outcomes: exit 0 (held on everything explored), exit 1 with a VIOLATION line, exit 2 (error of the check).
"""

import collections
import contextlib
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
import types

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# loop iterations and calls inside the code under test that one case may take: far above anything a terminating case
# needs, and counted, not timed, so that it is the same on every run
STEP_LIMIT = 1_000_000
DEEP_LIMIT = 40_000_000
#: sub-checks of large inputs, which have the higher limit
DEEP_SUBS = ("deep", "long", "wide", "huge")
# work spent on shrinking after the first failure
SHRINK_CASES = 1500
SHRINK_STEPS = 60_000_000
# processor time (not wall-clock) that one case may take: only for loops whose steps get slower and slower; a terminating
# case takes a few seconds at most
CPU_LIMIT = 40

CASE_NAMESPACE = {"frozenset": frozenset, "set": set}


class Violation(Exception):
    """The code under test broke the property"""


class Overtime(Violation):
    """A case used up its processor time"""


def _overtime(*args):
    raise Overtime("did not terminate within {} s of processor time".format(CPU_LIMIT))


class Note(object):
    """Collects what a case exercised"""

    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = False

    def label(self, name, n=1):
        self.labels[name] += n

    def count(self, flag=True):
        if flag:
            self.nontrivial = True


@contextlib.contextmanager
def sut(what):
    """Everything in the block is a valid use of the code under test, which must not fail"""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if fr.filename.startswith(REPO + "/"):
                where = " (in {} line {})".format(os.path.relpath(fr.filename, REPO), fr.lineno)
                break
        raise Violation("{} raised {}: {}{}".format(what, type(e).__name__, e, where)) from e


def require(cond, message, *args):
    if not cond:
        raise Violation(message.format(*args))


def refused(what, fn, kinds=(Exception,)):
    """fn must raise one of the given kinds of exception"""
    try:
        r = fn()
    except Violation:
        raise
    except Exception as e:
        if not isinstance(e, tuple(kinds)):
            raise Violation("{} raised {} ({}) instead of {}".format(
                what, type(e).__name__, e, "/".join(k.__name__ for k in kinds))) from e
        return e
    raise Violation("{} was not refused (returned {!r})".format(what, r))


# ---------------------------------------------------------------- step limit

class Steps(object):
    """Counts branches, jumps and calls executed in the code under test (sys.monitoring, local events)"""

    TOOL = 4

    def __init__(self):
        self.n = 0
        self.total = 0
        self.limit = STEP_LIMIT
        self.lines = set()
        self.all_lines = 0
        self.installed = False

    def reset(self):
        self.total += self.n
        self.n = 0

    def _tick(self, *args):
        self.n += 1
        if self.n > self.limit:
            self.n = 0
            raise Violation("did not terminate within {} steps".format(self.limit))

    def _line(self, code, line):
        self.lines.add((code.co_filename, line))
        return sys.monitoring.DISABLE

    def install(self, modules):
        mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(self.TOOL, "verif")
        mon.register_callback(self.TOOL, ev.JUMP, self._tick)
        mon.register_callback(self.TOOL, ev.BRANCH, self._tick)
        mon.register_callback(self.TOOL, ev.PY_START, self._tick)
        mon.register_callback(self.TOOL, ev.LINE, self._line)
        seen = set()

        def visit(code):
            if code in seen:
                return
            seen.add(code)
            mon.set_local_events(self.TOOL, code, ev.JUMP | ev.BRANCH | ev.PY_START | ev.LINE)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    visit(c)

        def funcs(obj, depth=0):
            for v in list(vars(obj).values()):
                if isinstance(v, (staticmethod, classmethod)):
                    v = v.__func__
                if isinstance(v, property):
                    for f in (v.fget, v.fset, v.fdel):
                        if f is not None:
                            visit(f.__code__)
                elif isinstance(v, types.FunctionType):
                    if v.__code__.co_filename.startswith(REPO + "/"):
                        visit(v.__code__)
                elif isinstance(v, type) and depth < 3 and v.__module__.startswith("solver"):
                    funcs(v, depth + 1)

        for m in modules:
            funcs(m)
        self.installed = True


STEPS = Steps()


def load_solver():
    """Imports the code under test from the working tree, never from stale bytecode"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-such-pycache")
    import warnings
    warnings.simplefilter("ignore", SyntaxWarning)
    sys.path.insert(0, REPO)
    import logging
    for name in ("geometry", "method", "configuration", "cluster", "constraint"):
        logging.getLogger(name).addHandler(logging.NullHandler())
    names = ["solver", "solver.graph", "solver.method", "solver.geometry", "solver.geometric.cluster",
             "solver.geometric.configuration", "solver.geometric.constraint", "solver.geometric.relation"]
    mods = [importlib.import_module(n) for n in names]
    for m in mods:
        if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + "/"):
            raise RuntimeError("{} was not imported from {}".format(m.__name__, REPO))
    STEPS.install(mods)


# ---------------------------------------------------------------- registry

class Sub(object):
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule


REGISTRY = collections.OrderedDict()


def check(prop, name, strategy, quick, rule, thorough=None):
    """Registers a sub-check fn(case, note) of a property"""
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Sub(prop, name, strategy, fn, quick, thorough or quick * 30, rule))
        return fn
    return deco


MODULES = {
    "C01": "graphs", "C02": "graphs", "C03": "graphs",
    "C04": "methods", "C05": "methods", "C06": "methods", "C07": "methods", "C08": "methods", "C09": "methods",
    "C10": "constraints", "C11": "constraints",
    "C12": "geom", "C13": "geom", "C14": "geom", "C15": "geom", "C16": "geom", "C17": "geom",
    "C18": "linalg", "C19": "linalg", "C20": "linalg",
    "C21": "configs", "C22": "configs", "C23": "configs", "C24": "configs",
    "C25": "clusters", "C26": "clusters", "C27": "clusters",
    "C28": "printing", "C29": "isolation", "C30": "renaming",
}


def subs_of(prop):
    importlib.import_module("props." + MODULES[prop])
    return REGISTRY[prop]


# ---------------------------------------------------------------- one case

def run_case(sub, case):
    """Runs one case; returns its Note, raises Violation if the property is broken"""
    note = Note()
    STEPS.reset()
    STEPS.limit = DEEP_LIMIT if sub.name in DEEP_SUBS else STEP_LIMIT
    # as much stack as a program has by default (Hypothesis raises the limit)
    limit = sys.getrecursionlimit()
    depth, frame = 0, sys._getframe()
    while frame is not None:
        depth, frame = depth + 1, frame.f_back
    sys.setrecursionlimit(depth + 1000)
    signal.signal(signal.SIGVTALRM, _overtime)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        sub.fn(case, note)
    except Violation:
        raise
    except MemoryError as e:
        raise Violation("ran out of memory ({} GB)".format(resource.getrlimit(resource.RLIMIT_AS)[0] >> 30)) from e
    except Exception as e:
        # the code under test failed outside the calls that are guarded by sut(), or returned something that does not
        # even have the form of an answer; on answers of the right form the checks themselves raise nothing
        last = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("unusable answer: {}: {} ({} line {})".format(type(e).__name__, str(e)[:300],
                                                                    os.path.basename(last.filename), last.lineno)) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.setrecursionlimit(limit)
    return note


def parse_case(text):
    return eval(text, dict(CASE_NAMESPACE))


class Result(object):
    def __init__(self, sub):
        self.sub = sub
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.labels = collections.Counter()
        self.failure = None         # (case text, message)
        self.error = None
        self.flaky = False
        self.replayed = 0
        self.lines = set()
        self.steps = 0              # most steps a case took

    def record(self, case, note):
        self.evaluations += 1
        self.labels.update(k for k, v in note.labels.items() if v)
        if note.nontrivial:
            text = repr(case)
            key = hashlib.blake2b(text.encode("utf-8", "backslashreplace"), digest_size=8).digest()
            if key not in self.distinct:
                self.distinct.add(key)
                # keep a few samples, spread over the run
                if len(self.distinct) in (3, 40, 400) and len(text) < 4000:
                    self.samples.append(text)
        else:
            self.labels["(trivial)"] += 1


def regressions(prop, subname):
    """Saved cases: shrunk failures of earlier defects"""
    path = os.path.join(ROOT, "regress", prop + ".jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                if d["sub"] == subname:
                    out.append(d["case"])
    return out


def independent_cases():
    """Keeps Hypothesis from following each generated case by several small variations of it: the generators here
    produce the coincidences that matter themselves, and independent cases cover far more of them"""
    from hypothesis.internal.conjecture import engine
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None


def explore(sub, seed, examples, saved=True):
    """Runs the saved cases and then a generated search; returns a Result"""
    import hypothesis
    independent_cases()
    from hypothesis import HealthCheck, Phase, given, settings

    res = Result(sub)
    for text in regressions(sub.prop, sub.name) if saved else ():
        case = parse_case(text)
        res.replayed += 1
        try:
            res.record(case, run_case(sub, case))
        except Violation as e:
            res.evaluations += 1
            res.failure = (text, str(e))
            return res

    failing = {}
    state = {"after": 0, "steps0": None}

    def body(case):
        if failing:
            # bounded shrinking: after the budget only cases already known to fail do fail
            state["after"] += 1
            spent = STEPS.total - state["steps0"]
            if state["after"] > SHRINK_CASES or spent > SHRINK_STEPS:
                text = repr(case)
                if text in failing:
                    raise Violation(failing[text])
                return
        try:
            note = run_case(sub, case)
        except Violation as e:
            res.evaluations += 1
            if not failing:
                state["steps0"] = STEPS.total
            failing[repr(case)] = str(e)
            state["last"] = repr(case)
            if isinstance(e, Overtime):
                state["after"] = SHRINK_CASES
            raise
        res.steps = max(res.steps, STEPS.n)
        res.record(case, note)

    test = given(sub.strategy)(body)
    test = settings(max_examples=examples, deadline=None, database=None, derandomize=False,
                    phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet,
                    suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example))(test)
    digest = hashlib.sha256("{}:{}:{}".format(seed, sub.prop, sub.name).encode()).digest()
    test = hypothesis.seed(int.from_bytes(digest[:8], "big"))(test)
    try:
        test()
    except Violation as e:
        text = state["last"]
        res.failure = (text, failing[text])
    except hypothesis.errors.Flaky:
        # the same case passed and failed: state leaks between cases in the code under test
        if not failing:
            raise
        text = min(failing, key=len)
        res.failure = (text, failing[text] + " (only after earlier cases in the same process)")
        res.flaky = True
    res.lines = set(STEPS.lines)
    return res
