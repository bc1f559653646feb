"""usage: check.py PROPERTY [--tier quick|thorough] [--sub NAME] [--examples N] [--no-evidence]"""

import argparse
import faulthandler
import json
import os
import sys
import tempfile
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)

START = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

SHARDS = int(os.environ.get("VERIF_SHARDS", "6"))
PROCESSES = int(os.environ.get("VERIF_PROCESSES", "8"))


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out.append(d)
    return out


def search(args):
    prop, name, seed, examples, k = args
    from vkit import core
    for sub in core.subs_of(prop):
        if sub.name == name:
            r = core.explore(sub, seed, examples, saved=k == 0)
            return (name, r.evaluations, r.distinct, r.samples, r.labels, r.failure, r.replayed, r.steps, r.lines)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--sub")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))

    from vkit import core
    storage = tempfile.mkdtemp(prefix="verif-hyp-")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = storage
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    try:
        core.load_solver()
        subs = [s for s in core.subs_of(a.prop) if not a.sub or s.name == a.sub]
        rows = []
        failure = None
        import concurrent.futures
        import multiprocessing
        # several independently seeded searches per sub-check; the number of processes does not affect the outcome
        jobs = []
        byname = {s.name: s for s in subs}
        for k in range(SHARDS if a.tier == "quick" else 8):
            for s in subs:
                if a.tier == "quick":
                    jobs.append((a.prop, s.name, seed if k == 0 else "{}/{}".format(seed, k), a.examples or s.quick, k))
                else:
                    jobs.append((a.prop, s.name, seed * 1000 + k, max(1, (a.examples or s.thorough) // 8), k))
        acc = {}
        with concurrent.futures.ProcessPoolExecutor(PROCESSES, multiprocessing.get_context("fork")) as ex:
            futures = [ex.submit(search, j) for j in jobs]
            for f in futures:
                (name, ev, dist, samples, labels, fail, rep, steps, lines) = f.result()
                if name in acc:
                    x = acc[name]
                    x[1] += ev
                    x[2] |= dist
                    x[4].update(labels)
                    x[5] += rep
                    x[6] |= lines
                    x[7] = max(x[7], steps)
                else:
                    acc[name] = [byname[name], ev, set(dist), samples, labels, rep, set(lines), steps]
                if fail:
                    # the first failure in the order of the jobs, so that the outcome is reproducible
                    failure = (byname[name], fail)
                    workers = list((ex._processes or {}).values())
                    ex.shutdown(wait=False, cancel_futures=True)
                    for p in workers:
                        p.terminate()
                    break
        rows = list(acc.values())
    finally:
        import shutil
        shutil.rmtree(storage, ignore_errors=True)

    violations = 0
    for k in known_findings(a.prop):
        print("KNOWN-FINDING: property={} {}".format(a.prop, k["what"]))
    if failure:
        sub, (case, message) = failure
        listed = [k for k in known_findings(a.prop) if k.get("sub") == sub.name and k.get("case") == case]
        if not listed:
            violations = 1
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "{}-{}.json".format(a.prop, sub.name))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "sub": sub.name, "case": case, "message": message, "seed": seed}, f,
                          indent=1)
                f.write("\n")
            print("property {} is broken ({}): {}".format(a.prop, sub.name, message))
            print("minimal case: {}".format(case if len(case) < 2000 else case[:2000] + "..."))
            print("replay with: python3-vt replay.py {}".format(path))
            print("VIOLATION property={} replay={}".format(a.prop, path))

    if not a.no_evidence:
        write_evidence(a, seed, rows, violations)
    for row in rows:
        print("{} {}: {} cases ({} saved), {} distinct non-trivial".format(a.prop, row[0].name, row[1], row[5], len(row[2])))
        if os.environ.get("VERIF_VERBOSE"):
            print("   ", row[7], "steps at most", dict(row[4].most_common(40)))
    return 1 if violations else 0


def write_evidence(a, seed, rows, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    samples = []
    for row in rows:
        for s in row[3][:3]:
            samples.append({"sub": row[0].name, "case": s})
    lines = {}
    for row in rows:
        for (fn, line) in row[6]:
            lines.setdefault(os.path.relpath(fn, os.environ.get("VERIF_REPO", "/repo")), set()).add(line)
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r[1] for r in rows),
            "distinct_nontrivial": sum(len(r[2]) for r in rows),
            "rule": " | ".join("{}: {}".format(r[0].name, r[0].rule) for r in rows),
            "samples": samples,
            "per_sub_check": [{"name": r[0].name, "evaluations": r[1], "distinct_nontrivial": len(r[2]),
                               "saved_cases_replayed": r[5], "most_steps_in_a_case": r[7], "classes": dict(r[4].most_common())} for r in rows],
            "lines_executed_per_file": {k: len(v) for k, v in sorted(lines.items())},
            "exhaustive": False,
        },
        "assumptions": ["Python 3.12 of python3-vt, numpy {} as the linear solver behind Matrix.solve".format(
            __import__("numpy").__version__)],
        "wall_s": round(time.time() - START, 3),
        "violations": violations,
    }
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    faulthandler.enable()
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("ERROR: the check itself failed")
        code = 2
        import multiprocessing
        for p in multiprocessing.active_children():
            p.kill()
    sys.stdout.flush()
    os._exit(code) if code == 2 else sys.exit(code)
