#!/usr/bin/env python3
"""replay.py <replay.json>: re-run one saved case, without Hypothesis."""
import json
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and os.path.exists(PY):
    os.execv(PY, [PY, "-W", "ignore"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from vf import run
    r = json.load(open(sys.argv[1]))
    s = next(x for x in run.load(r["property"]) if x.name == r["sub"])
    rec, v = run.run_quiet(s, r["case"], run.load_known(r["property"]))
    print(json.dumps(r["case"]))
    if v is not None:
        print(v)
        print("VIOLATION property=%s replay=%s" % (r["property"],
                                                   os.path.abspath(sys.argv[1])))
        sys.exit(1)
    for k in rec.known:
        print("KNOWN-FINDING: property=%s key=%s" % (r["property"], k))
    print("held")
