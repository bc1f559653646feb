"""As run.py, with predicates on the history: the operation just before on the same object, the number of operations, a refusal
before. python3-vt tools/corrupt/run_history.py [GR ME CO CF ...]"""
import shutil
import subprocess
import sys
import os
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, "/repo")
from solver.graph import Graph
from solver.method import MethodGraph
from solver.geometric.constraint import ConstraintGraph
from solver.geometric.configuration import Configuration
jobs = []
def H(pre, cls, targets, check, extra=()):
    ops = [n for n in cls.__dict__ if callable(cls.__dict__[n]) and not n.startswith("_")]
    preds = ["last:" + o for o in ops] + ["cnt15", "cnt40", "cnt100", "raised"] + ["twice:" + o for o in ops[:0]]
    for t in targets.split():
        for p in preds: jobs.append((pre + "." + t, p, check))
H("GR.Graph", Graph, "path connected connected_subsets", "C03")
H("GR.Graph", Graph, "copy subgraph reverse", "C02")
H("GR.Graph", Graph, "edges ingoing_vertices has_edge remove_vertex add_edge set", "C01")
H("ME.MethodGraph", MethodGraph, "set get propagate", "C04")
H("ME.MethodGraph", MethodGraph, "set propagate", "C05")
H("ME.MethodGraph", MethodGraph, "add_method", "C06")
H("ME.MethodGraph", MethodGraph, "rem_variable rem_method clear", "C07")
H("CO.ConstraintGraph", ConstraintGraph, "add_constraint rem_variable rem_constraint get_constraints_on get_constraints_on_all get_constraints_on_any", "C10")
H("CF.Configuration", Configuration, "__eq__", "C21")
H("CF.Configuration", Configuration, "merge transformation_matrix", "C22")
H("CF.Configuration", Configuration, "select copy add transform get", "C24")
if len(sys.argv) > 1:
    jobs = [j for j in jobs if any(j[0].startswith(a) for a in sys.argv[1:])]
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
tree = tempfile.mkdtemp(prefix="corrupt")
shutil.copytree("/repo/solver", tree + "/solver")
with open(tree + "/solver/__init__.py", "a") as f:
    f.write(open(HERE + "/install.py").read())
print(len(jobs), "jobs", flush=True)
def run(j):
    t, p, checks = j
    for c in checks.split():
        e = dict(os.environ, CORRUPT=t + "@" + p, VERIF_REPO=tree, VERIF_SEED="1")
        t0 = time.time()
        r = subprocess.run(["python3-vt", "check.py", c, "--no-evidence"], env=e, capture_output=True, text=True, cwd=VERIF)
        if r.returncode == 1: 
            print("caught", t, p, c, round(time.time() - t0), flush=True); return
        if r.returncode not in (0, 1): print("ODD", t, p, c, r.returncode, (r.stdout + r.stderr)[-300:].replace("\n", " | "), flush=True)
    print("MISSED", t, p, checks, flush=True)
with ThreadPoolExecutor(4) as ex: list(ex.map(run, jobs))
print("done")
shutil.rmtree(tree)
