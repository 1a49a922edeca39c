"""Runs every sub-check of one property and writes its evidence file."""
import importlib
import json
import os
import sys
import time
import traceback

from . import env

env.setup()

import numpy as np                                            # noqa: E402

from . import core                                            # noqa: E402
from .env import VERIF                                        # noqa: E402

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def load(pid):
    importlib.import_module("vf.props." + pid.lower())
    return core.REGISTRY[pid]


def load_known(pid):
    """{(pid, sub, key): text} from lines
    `known: property=<id> sub=<sub> key=<key> <what fails>`."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line[len("known:"):].split(None, 3)
            kv = dict(p.split("=", 1) for p in parts[:3])
            if kv["property"] == pid:
                out[(pid, kv["sub"], kv["key"])] = parts[3]
    return out


def write_replay(pid, subname, viol, tag):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, subname, tag))
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": subname, "case": viol["case"],
                   "message": viol["msg"]}, f, indent=1)
    return path


def _job(args):
    pid, subname, tier, seed, shard, known, n = args
    try:
        s = next(x for x in core.REGISTRY[pid] if x.name == subname)
        t0 = time.time()
        r = core.drive(s, tier, seed, shard, known, n)
        r["wall"] = time.time() - t0
        return r
    except BaseException:                                     # noqa: BLE001
        return {"sub": subname, "shard": shard,
                "error": traceback.format_exc()[-4000:]}
    finally:
        stop_workers()


def corpus(pid, subs):
    """Saved minimal cases of the sub-checks `subs`."""
    d = os.path.join(VERIF, "corpus", pid)
    out = []
    for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if fn.endswith(".json"):
            rec = json.load(open(os.path.join(d, fn)))
            if any(s.name == rec["sub"] for s in subs):
                out.append((rec["sub"], rec["case"]))
    return out


def _corpus_job(args):
    """One saved case, run directly (no Hypothesis)."""
    pid, subname, case, known = args
    try:
        s = next(x for x in core.REGISTRY[pid] if x.name == subname)
        v = run_quiet(s, case, known)[1]
        return {"sub": subname, "case": case, "violation": None if v is None
                else {"case": case, "msg": str(v), "key": v.key}}
    except BaseException:                                     # noqa: BLE001
        return {"sub": subname, "violation": None,
                "error": traceback.format_exc()[-4000:]}
    finally:
        stop_workers()


def stop_workers():
    """joblib workers would otherwise idle for five minutes"""
    le = sys.modules.get("joblib.externals.loky.reusable_executor")
    ex = getattr(le, "_executor", None)
    if ex is not None:
        ex.shutdown(wait=True, kill_workers=True)


def confirmed(pid, r):
    """a case that hung, run again on its own: does it fail again?"""
    import subprocess
    p = write_replay(pid, r["sub"], r["violation"], "hang")
    try:
        return subprocess.run(
            [sys.executable, "-W", "ignore", os.path.join(VERIF, "replay.py"),
             p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            timeout=core.HANG+30).returncode != 0
    except subprocess.TimeoutExpired:
        return True


def run_quiet(s, case, known):
    import contextlib
    import io
    import random
    np.random.seed(core.case_seed(case))
    random.seed(core.case_seed(case))
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        return core.run_case(s, case, known)


def main(pid, tier, seed, only=None, n=None, serial=False):
    t0 = time.time()
    subs = load(pid)
    meta = core.META.get(pid, {})
    known = load_known(pid)
    if only:
        subs = [s for s in subs if s.name in only]
    jobs = []
    for s in subs:
        # one shard per `s.shards` in quick; thorough multiplies the streams
        k = s.shards if tier == "quick" else max(s.shards, 4)
        s.shards = k
        for sh in range(k):
            jobs.append((pid, s.name, tier, seed, sh, known, n))
    saved = [(pid, n_, c, known) for n_, c in corpus(pid, subs)]
    ncorpus = len(saved)
    if serial:
        replayed = [_corpus_job(j) for j in saved]
        results = [_job(j) for j in jobs]
    else:
        import multiprocessing
        from concurrent.futures import ProcessPoolExecutor
        ctx = multiprocessing.get_context("fork")
        with ProcessPoolExecutor(min(8, os.cpu_count() or 4, len(jobs)),
                                 mp_context=ctx) as ex:
            # this process itself runs no case: what it started (threads,
            # joblib workers) would be broken in the forked ones
            replayed = ex.map(_corpus_job, saved)
            results = list(ex.map(_job, jobs))
            replayed = list(replayed)
    errors = [r for r in results + replayed if r.get("error")]
    silent = [r for r in results + replayed if r.get("violation") and
              core.SILENT in r["violation"]["msg"]]
    for r in silent:
        if confirmed(pid, r):
            break
        print("note: %s/%s stopped answering once and did answer when run "
              "again" % (pid, r["sub"]))
        r["violation"] = None
    viols = [(r["sub"], r["violation"]) for r in replayed if r["violation"]]
    ev = {"evaluations": ncorpus, "distinct_nontrivial": 0, "rule": "",
          "samples": [], "regression_corpus_replayed": ncorpus,
          "sub_checks": {}}
    ids_all = set()
    known_hit = {}
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name and not r.get("error")]
        ids, nts, labels = set(), set(), {}
        for r in rs:
            ids.update(r["ids"])
            nts.update(r["nontrivial"])
            for k_, v_ in r["labels"].items():
                labels[k_] = labels.get(k_, 0) + v_
            for k_, c_ in r["known"].items():
                known_hit.setdefault((s.name, k_), c_)
            if r["violation"]:
                viols.append((s.name, r["violation"]))
        evals = sum(r["evaluations"] for r in rs)
        ev["evaluations"] += evals
        ids_all.update(s.name + i for i in nts)
        ev["sub_checks"][s.name] = {
            "evaluations": evals, "distinct": len(ids),
            "distinct_nontrivial": len(nts),
            "rejected_by_generator": sum(r["rejected"] for r in rs),
            "not_run_for_lack_of_time": sum(r.get("cut", 0) for r in rs
                                            if not r["violation"]),
            "rule": s.rule, "labels": dict(sorted(labels.items())),
            "wall_s": round(sum(r.get("wall", 0) for r in rs), 2)}
        for r in rs[:1]:
            for c in r["samples"][:1]:
                ev["samples"].append({"sub": s.name, "case": c})
    ev["distinct_nontrivial"] = len(ids_all)
    ev["rule"] = ("Hypothesis generates one JSON case per evaluation for each "
                  "sub-check; a case counts when it is distinct (SHA-1 of the "
                  "case) and non-trivial by its sub-check's rule: " +
                  "; ".join("%s: %s" % (s.name, s.rule) for s in subs))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": ev,
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    if not only and not os.environ.get("VERIF_NOEV"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for key, text in sorted(known.items()):
        hit = (key[1], key[2]) in known_hit
        print("KNOWN-FINDING: property=%s sub=%s key=%s %s%s" % (
            pid, key[1], key[2], text, "" if hit else
            " (not reached on this run)"))
    for sname, v in viols:
        path = write_replay(pid, sname, v, "s%d" % seed)
        print("--- %s/%s: %s" % (pid, sname, v["msg"]))
        print("    case: %s" % json.dumps(v["case"])[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d violations, "
          "%d errors, %.1fs" % (pid, tier, seed, ev["evaluations"],
                                ev["distinct_nontrivial"], len(viols),
                                len(errors), time.time() - t0))
    if viols:
        return 1
    if errors:
        for e in errors:
            print("HARNESS-ERROR %s/%s\n%s" % (pid, e["sub"], e["error"]),
                  file=sys.stderr)
        return 2
    for s in subs:
        c = ev["sub_checks"][s.name]
        if c["distinct_nontrivial"] == 0:
            print("HARNESS-ERROR %s/%s explored no non-trivial case" % (
                pid, s.name), file=sys.stderr)
            return 2
    return 0
