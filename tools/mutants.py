"""usage: mutants.py [--file solver/graph.py] [--jobs 8] [--out FILE] [--limit N] [--only ID,ID]

Systematic small changes of the code under test (one per mutant): those that the repository's own tests do not notice are
run against the checks, and the ones no check notices are printed for inspection."""

import argparse
import ast
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = {
    "solver/graph.py": ["C01", "C02", "C03", "C10", "C06", "C04", "C28", "C29", "C30"],
    "solver/method.py": ["C04", "C05", "C06", "C07", "C08", "C09", "C28", "C29", "C30"],
    "solver/geometry.py": ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C11", "C28", "C29", "C30"],
    "solver/geometric/configuration.py": ["C21", "C22", "C23", "C24", "C28", "C29", "C30"],
    "solver/geometric/cluster.py": ["C25", "C26", "C28", "C29", "C30"],
    "solver/geometric/relation.py": ["C27", "C26", "C28", "C29", "C30"],
    "solver/geometric/constraint.py": ["C10", "C11", "C28", "C29", "C30"],
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"],
       ast.Mod: [], ast.Pow: []}


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(True)
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l.encode()))
        self.out = []               # (start, end, replacement, what)
        self.where = []

    def pos(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def rep(self, n, new, what):
        a, b = self.pos(n)
        self.out.append((a, b, new, "{}:{} {}".format(".".join(self.where), n.lineno, what)))

    def visit_FunctionDef(self, n):
        if n.name.startswith("test") or n.name in ("__str__", "__repr__") or any(
                "abstract" in ast.dump(d) for d in n.decorator_list):
            return
        self.where.append(n.name)
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)
        self.where.pop()

    def visit_ClassDef(self, n):
        self.where.append(n.name)
        for s in n.body:
            self.visit(s)
        self.where.pop()

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if "logging" in self.text(n):
            return
        self.rep(n, "pass", "delete " + self.text(n))
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.rep(n, "pass", "delete raise")

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.rep(n, "pass", "delete " + self.text(n))
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, "pass", "delete " + self.text(n))
        self.generic_visit(n)

    def visit_Delete(self, n):
        self.rep(n, "pass", "delete " + self.text(n))

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.rep(n, "return None", "return None for " + self.text(n.value))
        self.generic_visit(n)

    def visit_Break(self, n):
        self.rep(n, "continue", "break -> continue")

    def visit_If(self, n):
        t = self.text(n.test)
        self.rep(n.test, "not ({})".format(t), "negate if " + t)
        self.rep(n.test, "True", "if True for " + t)
        self.rep(n.test, "False", "if False for " + t)
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.rep(n, "{} {} {}".format(self.text(n.left), o, self.text(n.comparators[0])),
                         "{} -> {}".format(self.text(n), o))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        new = " or " if isinstance(n.op, ast.And) else " and "
        self.rep(n, "(" + new.join("(" + self.text(v) + ")" for v in n.values) + ")", "and/or: " + self.text(n))
        old = " and " if isinstance(n.op, ast.And) else " or "
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            self.rep(n, "(" + old.join("(" + self.text(v) + ")" for v in rest) + ")", "drop " + self.text(n.values[i]))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.rep(n, "(" + self.text(n.operand) + ")", "drop sign/not of " + self.text(n))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        for o in BIN.get(type(n.op), []):
            self.rep(n, "(({}) {} ({}))".format(self.text(n.left), o, self.text(n.right)),
                     "{} -> {}".format(self.text(n), o))
        self.rep(n, "(" + self.text(n.left) + ")", "left of " + self.text(n))
        self.rep(n, "(" + self.text(n.right) + ")", "right of " + self.text(n))
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.rep(n, repr(not v), "{} -> {}".format(v, not v))
        elif isinstance(v, (int, float)):
            self.rep(n, repr(v + 1), "{} -> {}".format(v, v + 1))
            if v not in (0, 1):
                self.rep(n, repr(v / 2), "{} -> {}".format(v, v / 2))
            elif v:
                self.rep(n, "0", "{} -> 0".format(v))

    def visit_Call(self, n):
        if "logging" in self.text(n) or "format" in self.text(n.func):
            return
        args = n.args
        for i in range(len(args) - 1):
            if self.text(args[i]) != self.text(args[i + 1]) and not isinstance(args[i + 1], ast.Starred):
                a, _ = self.pos(args[i])
                _, b = self.pos(args[i + 1])
                self.out.append((a, b, self.text(args[i + 1]) + ", " + self.text(args[i]),
                                 "{}:{} swap arguments of {}".format(".".join(self.where), n.lineno, self.text(n))))
        if len(args) == 1 and isinstance(n.func, ast.Name) and n.func.id in (
                "list", "set", "abs", "float", "int", "dict", "sorted", "frozenset", "str", "hash"):
            self.rep(n, "(" + self.text(args[0]) + ")", "drop " + n.func.id + " in " + self.text(n))
        self.generic_visit(n)

    def visit_Attribute(self, n):
        swap = {"x": "y", "y": "x", "num_rows": "num_cols", "num_cols": "num_rows", "_forward": "_reverse",
                "_reverse": "_forward", "inputs": "outputs", "outputs": "inputs", "ingoing_vertices": "outgoing_vertices",
                "outgoing_vertices": "ingoing_vertices", "x_vars": "vars", "vars": "x_vars", "tol_gt": "tol_ge",
                "tol_ge": "tol_gt", "tol_lt": "tol_le", "tol_le": "tol_lt", "sin": "cos", "cos": "sin"}
        if n.attr in swap:
            self.rep(n, self.text(n.value) + "." + swap[n.attr], "{} -> {}".format(self.text(n), swap[n.attr]))
        self.generic_visit(n)

    def visit_Name(self, n):
        swap = {"self": "other", "other": "self", "p1": "p2", "p2": "p1", "p3": "p1", "v1": "v2", "v2": "v1", "r1": "r2",
                "r2": "r1", "cs1": "cs2", "cs2": "cs1", "p11": "p21", "p21": "p11", "p12": "p22", "p22": "p12", "u": "v",
                "v": "u", "a": "b", "b": "a", "row": "col", "col": "row", "d21": "d23", "d23": "d21"}
        if n.id in swap and isinstance(n.ctx, ast.Load):
            self.rep(n, swap[n.id], "{} -> {} in {}".format(n.id, swap[n.id], self.lines[n.lineno - 1].strip()))


def mutants(path):
    src = open(os.path.join("/repo", path)).read()
    f = Find(src)
    f.visit(ast.parse(src))
    seen, out = set(), []
    for a, b, new, what in f.out:
        raw = src.encode()
        text = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(text, path, "exec")
        except SyntaxError:
            continue
        if text in seen or ast.dump(ast.parse(text)) == ast.dump(ast.parse(src)):
            continue
        seen.add(text)
        out.append((path, what, text))
    return out


def tests(tree):
    """The tests that pass"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=tree)
    try:
        p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--log-level=DEBUG",
                            "--continue-on-collection-errors", "-rA", tree], cwd=tree, env=env, capture_output=True, text=True,
                           timeout=60)
    except subprocess.TimeoutExpired:
        return set()
    return {l.split()[1].split("::", 1)[1] for l in p.stdout.splitlines() if l.startswith("PASSED")}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--file")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=int)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--shards", default="1")
    ap.add_argument("--match")
    ap.add_argument("--out", default="/tmp/mutants.json")
    a = ap.parse_args()
    todo = [m for f in FILES if not a.file or f in a.file.split(",") for m in mutants(f)]
    if a.match:
        todo = [m for m in todo if re.search(a.match, m[1])]
    if a.limit:
        todo = todo[::max(1, len(todo) // a.limit)]
    print(len(todo), "mutants", flush=True)
    scratch = tempfile.mkdtemp(prefix="verif-mutants-")
    local = threading.local()
    lock = threading.Lock()
    count = [0]

    def one(m):
        path, what, text = m
        if not hasattr(local, "tree"):
            with lock:
                count[0] += 1
                local.base = os.path.join(scratch, "w%d" % count[0])
            local.tree = os.path.join(local.base, "repo")
            shutil.copytree("/repo", local.tree, ignore=shutil.ignore_patterns(".git"))
            local.verif = os.path.join(local.base, "verif")
            shutil.copytree(HERE, local.verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        target = os.path.join(local.tree, path)
        orig = open(os.path.join("/repo", path)).read()
        with open(target, "w") as f:
            f.write(text)
        try:
            if base - tests(local.tree):
                return path, what, "tests", ""
            env = dict(os.environ, VERIF_REPO=local.tree, VERIF_SEED=a.seed, VERIF_TIER="quick", VERIF_SHARDS=a.shards, VERIF_PROCESSES="1")
            errors = ""
            for p in FILES[path]:
                try:
                    r = subprocess.run(["python3-vt", "check.py", p], cwd=local.verif, env=env, capture_output=True,
                                       text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    errors += p + " timed out "
                    continue
                if r.returncode == 1:
                    return path, what, p, ""
                if r.returncode:
                    errors += "{} exit {}: {} ".format(p, r.returncode, r.stdout[-300:] + r.stderr[-300:])
            return path, what, None, errors
        finally:
            with open(target, "w") as f:
                f.write(orig)

    res = []
    base = tests("/repo")
    print(len(base), "tests pass", flush=True)
    try:
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            for r in ex.map(one, todo):
                res.append(r)
                if r[2] is None:
                    print("MISSED", r[0], r[1].replace("\n", " "), r[3], flush=True)
                json.dump(res, open(a.out, "w"), indent=0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    n = len(res)
    t = sum(1 for r in res if r[2] == "tests")
    c = sum(1 for r in res if r[2] not in (None, "tests"))
    print("{} mutants: {} noticed by the tests, {} by the checks, {} by neither".format(n, t, c, n - t - c))


if __name__ == "__main__":
    main()
