"""Writes MANIFEST.json from properties.jsonl"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "graphs": "property-based testing (Hypothesis): generated graphs and edit histories against a reference model",
    "methods": "stateful property-based testing: generated method-graph histories against a reference model",
    "constraints": "property-based testing: generated histories and placements against set and exact rational models",
    "geom": "property-based testing: generated geometry against exact rational oracles and metamorphic relations",
    "linalg": "property-based testing: generated matrices and vectors against exact rational arithmetic",
    "configs": "property-based testing: generated configurations against constructed congruences and rigid-motion oracles",
    "clusters": "property-based testing: generated cluster and relation pairs against a set model",
    "printing": "property-based testing: generated objects in reachable states; differential runs with logging on and off",
    "isolation": "property-based testing with schedule exploration and fault injection: generated activities interrupted by "
                 "others at generated lines, differential against each run alone",
    "renaming": "property-based testing: metamorphic, the same generated activities under a replacement of all names",
}
import re
src = open(os.path.join(HERE, "vkit", "core.py")).read()
MODS = dict(re.findall(r'"(C\d\d)": "(\w+)"', src))
NOTE = ("No violation in the cases generated with this seed (counts, classes and samples in the evidence file); trusts the "
        "oracle and generators in props/{}.py, Hypothesis, and CPython. Sampled, not exhaustive; inputs within the bounds in "
        "DESIGN.md.")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt check.py {} --tier quick".format(i),
        "thorough_cmd": "python3-vt check.py {} --tier thorough".format(i),
        "evidence_file": "evidence/{}.json".format(i),
        "technique": TECH[MODS[i]],
        "level": "exploration",
        "level_note": NOTE.format(MODS[i]),
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis, numpy'", "checks": checks,
               "not_applicable": [],
               "notes": "No hooks in /repo. The checks import the code from /repo's working tree (pure Python, no build)."},
              f, indent=1)
    f.write("\n")
