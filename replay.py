"""usage: replay.py FILE   replays one saved case against /repo, without the property library"""

import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vkit import core

core.load_solver()
d = json.load(open(sys.argv[1]))
for sub in core.subs_of(d["property"]):
    if sub.name == d["sub"]:
        try:
            core.run_case(sub, core.parse_case(d["case"]))
        except core.Violation as e:
            print("VIOLATION property={} replay={}".format(d["property"], sys.argv[1]))
            print(e)
            sys.exit(1)
        print("held")
