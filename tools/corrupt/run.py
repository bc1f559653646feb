"""Corrupts the answers of one function at a time wherever a predicate holds (`install.py`), and lists the pairs of function
and predicate that the property's check does not notice: python3 tools/corrupt/run.py [GE.cc_int ...]. Some pairs cannot
be noticed: the predicate is impossible, or the answer is empty or undecided there."""
import shutil
import subprocess
import sys
import os
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
NUMP = "big2 big3 big5 big7 allbig3 small2 small4 anysmall4 anysmall7 neg pos ints noints halves intnot1 spread negzero".split()
VEC = NUMP + "samex samey diag firstlast sameobj origin fournums".split()
NAMES = "tuple alltuple allint allintn8 none negint bigint falsy float longname bool mixed".split()
SZ = "n1 n2 n3 n5 n8 n12 n20 n40".split()
jobs = []
def J(targets, preds, checks):
    for t in targets.split():
        for p in preds: jobs.append((t, p, checks))
J("GE.cc_int", VEC, "C14"); J("GE.cl_int GE.cr_int", VEC, "C15"); J("GE.ll_int GE.lr_int GE.rr_int", VEC, "C16")
J("GE.angle_3p GE.distance_2p", VEC, "C13")
J("GE.is_clockwise GE.is_counterclockwise GE.is_flat", VEC, "C12")
J("GE.is_obtuse GE.is_acute", VEC, "C13")
J("GE.make_hcs GE.make_hcs_scaled GE.cs_transform_matrix", VEC, "C17")
J("GE.Vector.length GE.Vector.__add__ GE.Vector.__eq__ GE.Vector.dot GE.Vector.rotate GE.Vector.azimuth", NUMP, "C19")
J("GE.Matrix.solve GE.Matrix.__mul__ GE.Matrix.inverse GE.Matrix.transpose", NUMP + ["n5"], "C18")
J("GE.Scalar.tol_eq GE.Scalar.tol_gt GE.Scalar.tol_zero", NUMP, "C20")
J("GR.Graph.path GR.Graph.connected GR.Graph.connected_subsets", NAMES + SZ, "C03")
J("GR.Graph.copy GR.Graph.subgraph GR.Graph.reverse", NAMES + SZ, "C02")
J("GR.Graph.add_edge GR.Graph.remove_vertex GR.Graph.ingoing_vertices GR.Graph.edges", NAMES + SZ, "C01")
J("ME.MethodGraph.set ME.MethodGraph.propagate", NAMES + SZ, "C04")
J("ME.MethodGraph.propagate", NAMES + SZ, "C05")
J("ME.MethodGraph.add_method", NAMES + SZ, "C06")
J("ME.MethodGraph.rem_variable ME.MethodGraph.rem_method", NAMES + SZ, "C07")
J("CO.ConstraintGraph.add_constraint CO.ConstraintGraph.rem_variable CO.ConstraintGraph.rem_constraint CO.ConstraintGraph.get_constraints_on_all CO.ConstraintGraph.get_constraints_on_any", NAMES + SZ, "C10")
J("CF.Configuration.__eq__", NUMP + NAMES + SZ, "C21")
J("CF.Configuration.merge CF.Configuration.transformation_matrix", NUMP + NAMES + SZ, "C22")
J("CF.Configuration.select CF.Configuration.copy CF.Configuration.add CF.Configuration.transform CF.Configuration.vars", NUMP + NAMES + SZ, "C24")
J("CL.Rigid.intersection CL.Rigid.intersect_rigid CL.Hedgehog.intersect_balloon CL.Hedgehog.intersect_hedgehog CL.Balloon.intersect_balloon", NAMES + SZ, "C25")
J("CL.Rigid.common_distances CL.Rigid.common_angles_rigid CL.Rigid.n_angles CL.Hedgehog.n_angles CL.Balloon.n_angles CL.Rigid.n_distances CL.Rigid.common_angles_hedgehog CL.Balloon.common_angles_hedgehog", NAMES + SZ, "C26")
J("RE.Distance.__eq__ RE.Angle.__eq__", NAMES, "C27")
if len(sys.argv) > 1:
    jobs = [j for j in jobs if any(j[0].startswith(a) for a in sys.argv[1:])]
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
tree = tempfile.mkdtemp(prefix="corrupt")
shutil.copytree("/repo/solver", tree + "/solver")
with open(tree + "/solver/__init__.py", "a") as f:
    f.write(open(HERE + "/install.py").read())
print(len(jobs), "jobs", flush=True)
def run(j):
    t, p, checks = j
    for c in checks.split():
        e = dict(os.environ, CORRUPT=t + "@" + p, VERIF_REPO=tree, VERIF_SEED="1")
        t0 = time.time()
        r = subprocess.run(["python3-vt", "check.py", c, "--no-evidence"], env=e, capture_output=True, text=True, cwd=VERIF)
        if r.returncode == 1: 
            print("caught", t, p, c, round(time.time() - t0), flush=True); return
        if r.returncode not in (0, 1): print("ODD", t, p, c, r.returncode, (r.stdout + r.stderr)[-300:].replace("\n", " | "), flush=True)
    print("MISSED", t, p, checks, flush=True)
with ThreadPoolExecutor(4) as ex: list(ex.map(run, jobs))
print("done")
shutil.rmtree(tree)
