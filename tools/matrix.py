"""usage: matrix.py [--checks C01,C02] [--seed N] TREE...

Runs all checks against each working tree of the repository (8 at a time) and prints which report a violation.
Output (replay files, evidence) stays in a scratch copy of this directory."""

import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(args):
    base, tree, prop, seed = args
    env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED=str(seed), VERIF_TIER="quick")
    p = subprocess.run(["python3-vt", "check.py", prop], cwd=base, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return prop, p.returncode, p.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--checks")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("trees", nargs="+")
    a = ap.parse_args()
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    if a.checks:
        props = a.checks.split(",")
    scratch = tempfile.mkdtemp(prefix="verif-matrix-")
    out = {}
    try:
        jobs = []
        for k, t in enumerate(a.trees):
            base = os.path.join(scratch, str(k))
            shutil.copytree(HERE, base, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", ".hypothesis"))
            jobs += [(base, os.path.abspath(t), p, a.seed) for p in props]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for job, (prop, rc, text) in zip(jobs, ex.map(run, jobs)):
                tree = job[1]
                row = out.setdefault(tree, {})
                if rc == 0:
                    continue
                m = re.search(r"^VIOLATION property=\S+ replay=(\S+)", text, re.M)
                if rc == 1 and m:
                    r = json.load(open(m.group(1)))
                    row[prop] = {"sub": r["sub"], "case": r["case"], "message": r["message"]}
                else:
                    row[prop] = {"error": rc, "output": text[-2000:]}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for t, row in out.items():
        print(t, "caught by:", " ".join(p if "error" not in r else p + "(ERROR)" for p, r in row.items()) or "none",
              file=sys.stderr)
    json.dump(out, sys.stdout, indent=1)
    print()


if __name__ == "__main__":
    main()
