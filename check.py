#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--only sub,..] [--n N]

Runs under the project's interpreter, re-executing itself there if needed.
"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and os.path.exists(PY):
    os.execv(PY, [PY, "-W", "ignore"] + sys.argv)
os.environ["PYTHONHASHSEED"] = "0"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--only")
    ap.add_argument("--n", type=int)
    ap.add_argument("--serial", action="store_true")
    a = ap.parse_args()
    from vf import run
    code = run.main(a.prop, a.tier, a.seed,
                    a.only.split(",") if a.only else None, a.n, a.serial)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
