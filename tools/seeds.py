"""usage: seeds.py [--checks own|all] [ID...]

For every planted bug: applies it in a scratch worktree, runs the repository's tests there, runs its demonstration on the
clean and on the changed tree, and runs the property's own check (or all checks) against it."""

import argparse
import concurrent.futures
import json
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def tests(tree):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=tree)
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--log-level=DEBUG",
                        "--continue-on-collection-errors", "-rA", tree], cwd=tree, env=env, capture_output=True, text=True)
    return {l.split()[1].split("::", 1)[1] for l in p.stdout.splitlines() if l.startswith("PASSED")}


def demo(d, tree):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=tree, capture_output=True, text=True, timeout=300)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--checks", default="own", choices=["own", "all", "none"])
    ap.add_argument("--seed", default="1")
    ap.add_argument("--root", default=os.path.join(HERE, "seeded"))
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    root = os.path.abspath(a.root)
    ids = a.ids or sorted(os.listdir(root))
    scratch = tempfile.mkdtemp(prefix="verif-seeds-")
    trees = {}
    try:
        clean = os.path.join(scratch, "clean")
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", clean, "HEAD"], check=True)
        base = tests(clean)

        def one(i):
            d = os.path.join(root, i)
            t = os.path.join(scratch, i)
            p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=t, capture_output=True, text=True)
            bad = []
            if p.returncode:
                return i, ["does not apply: " + p.stderr]
            lost = base - tests(t)
            if lost:
                bad.append("tests fail: {}".format(sorted(lost)))
            p = demo(d, clean)
            if p.returncode:
                bad.append("demo fails on the clean tree: " + p.stderr[-500:])
            p = demo(d, t)
            if not p.returncode:
                bad.append("demo passes on the changed tree")
            return i, bad

        for i in ids:
            t = os.path.join(scratch, i)
            subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t, "HEAD"], check=True)
            trees[i] = t
        good = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for i, bad in ex.map(one, ids):
                if bad:
                    print("INVALID", i, bad)
                else:
                    good.append(i)
        print(len(base), "tests pass on the clean tree;", len(good), "of", len(ids), "planted bugs are valid")

        def check(i):
            prop = json.load(open(os.path.join(root, i, "meta.json")))["property"]
            cmd = [sys.executable, os.path.join(HERE, "tools", "matrix.py"), "--seed", a.seed, trees[i]]
            if a.checks == "own":
                cmd[2:2] = ["--checks", prop]
            p = subprocess.run(cmd, capture_output=True, text=True)
            row = list(json.loads(p.stdout).values())
            row = row[0] if row else {}
            return i, prop, row

        if a.checks != "none":
            with concurrent.futures.ThreadPoolExecutor(8 if a.checks == "own" else 1) as ex:
                for i, prop, row in ex.map(check, good):
                    caught = [p + ("(ERROR)" if "error" in r else "") for p, r in row.items()]
                    print("{} {} {}".format("caught" if prop in caught else "MISSED", i, " ".join(caught)), flush=True)
                    if prop in row and "error" not in row[prop]:
                        print("      ", row[prop]["sub"], row[prop]["message"][:200])
    finally:
        for t in list(trees.values()) + [os.path.join(scratch, "clean")]:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t], capture_output=True)
        shutil.rmtree(scratch, ignore_errors=True)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])


if __name__ == "__main__":
    main()
