"""Check planted changes in scratch copies: python3 tools/seedcheck.py [ids]
[--no-tests].  For each seeded/<id>: applies, lines changed are the original
repository's, stable tests pass, demo fails with / passes without, and whether
its property's quick check reports it.  (Used while building; no registered
check reads seeded/.)"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0",
                       "HEAD"], capture_output=True, text=True).stdout.strip()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(i, tests=True):
    d, w = os.path.join(S, i), "/tmp/seedcheck-" + i
    meta = json.load(open(d + "/meta.json"))
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    out = [i]
    try:
        def demo():
            return subprocess.run(["bash", d + "/demo.sh"], cwd=w,
                                  capture_output=True).returncode
        out.append("demo clean %s" % demo())
        diff = open(d + "/patch.diff").read()
        f = re.search(r"^--- a/(\S+)", diff, re.M).group(1)
        blame = subprocess.run(["git", "-C", w, "blame", "-s", "-l", f],
                               capture_output=True, text=True).stdout
        blame = [l.split()[0].lstrip("^") for l in blame.splitlines()]
        mine, old, line = 0, 0, 0
        for l in diff.splitlines():
            m = re.match(r"@@ -(\d+)", l)
            if m:
                line = int(m.group(1))
            elif l.startswith("-") and not l.startswith("---"):
                ok = BASE.startswith(blame[line-1][:30])
                old, mine = old + ok, mine + (not ok)
                line += 1
            elif l.startswith(" "):
                line += 1
        out.append("original lines %d, mine %d" % (old, mine))
        r = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"])
        out.append("apply %d" % r.returncode)
        out.append("demo patched %s" % demo())
        if tests:
            t = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-rA",
                 "-p", "no:cacheprovider", "tests"], cwd=w, text=True,
                capture_output=True, env=dict(os.environ, PYTHONPATH=w,
                                              OMP_NUM_THREADS="1"))
            bad = set(re.findall(r"^(?:FAILED|ERROR) (\S+)", t.stdout, re.M))
            bad = {b for b in bad if any(same(b, s) for s in STABLE)}
            out.append("stable tests failing: %s" % sorted(bad))
        c = subprocess.run(
            ["python3", os.path.join(V, "check.py"), meta["property"]],
            cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"),
            capture_output=True, text=True)
        hit = [l for l in c.stdout.splitlines() if l.startswith("---")]
        out.append("CAUGHT" if c.returncode == 1 and
                   "VIOLATION property=" + meta["property"] in c.stdout
                   else "MISSED (exit %d)" % c.returncode)
        out.append((hit[0] if hit else "")[:160])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return " | ".join(out)


def same(a, b):
    return a.split("::")[-1] == re.split(r"::|\.", b)[-1]


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(
        os.listdir(S))
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: one(i, "--no-tests" not in sys.argv), ids):
            print(r, flush=True)
