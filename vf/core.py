"""Sub-check registry, Hypothesis driver, judging helpers."""
import hashlib
import json
import os
import signal
import threading
import time
import traceback

import numpy as np

from .env import REPO

REGISTRY = {}          # pid -> list[Sub]
META = {}              # pid -> dict(assumptions=[...])


SHRINK = float(os.environ.get("VERIF_SHRINK", 60))   # seconds of shrinking
BUDGET = {"quick": 330, "thorough": 4*3600}        # seconds per campaign
SILENT = "the code under test did not answer"
HANG = 200             # seconds; cases take milliseconds to a few seconds


# The counts given to sub() are the relative weights of a property's
# sub-checks; the quick tier multiplies them so that every property gets
# about 100 to 200 seconds of processor time (20 to 30 s of wall time here).
FACTOR = dict(C01=8, C02=8, C03=6, C04=4, C05=10, C06=10, C07=8, C08=6, C09=5,
              C10=10, C11=8, C12=6, C13=5, C14=5, C15=6, C16=4, C17=4, C18=3,
              C19=2, C20=1, C21=6, C22=1, C23=2, C24=2, C25=8, C26=3, C27=2,
              C28=3, C29=20, C30=20, C31=4, C32=3, C33=1)


class Violation(Exception):
    """The property does not hold on this case.  `key` names the call site or
    input class, and is what a known-finding entry matches."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


class Sub:
    def __init__(self, pid, name, strategy, fn, quick, thorough, rule, shards):
        self.pid, self.name, self.strategy, self.fn = pid, name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.rule = rule
        self.shards = shards


def sub(pid, name, strategy, quick=100, thorough=None, rule="", shards=1):
    """Register fn(case, rec) as one obligation of property `pid`.

    strategy: Hypothesis strategy of JSON-able dicts; the dict alone determines
    the case, so the saved dict is the replay.
    """
    def deco(fn):
        REGISTRY.setdefault(pid, []).append(
            Sub(pid, name, strategy, fn, quick*FACTOR[pid],
                (thorough or quick * 20)*FACTOR[pid], rule,
                max(shards, 4 if FACTOR[pid] > 2 else 2)))
        return fn
    return deco


class Rec:
    """What one case says about itself."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.known = []

    def nt(self, cond=True):
        self.nontrivial = bool(cond)

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


# ------------------------------------------------------------------ judging
def sut(fn, *a, **k):
    """Call the code under test on an input it must handle."""
    key = k.pop("_key", None)
    try:
        with np.errstate(all="ignore"):
            return fn(*a, **k)
    except Exception as e:                                    # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("%s raised %s: %s (at %s:%s)" % (
            _name(fn), type(e).__name__, str(e)[:300],
            os.path.relpath(tb.filename, REPO)
            if tb.filename.startswith(REPO) else tb.filename, tb.lineno),
            key=key) from e


def rejects(fn, *a, exc=Exception, what="", **k):
    """The code under test must refuse this input by raising `exc`."""
    try:
        with np.errstate(all="ignore"):
            r = fn(*a, **k)
    except exc:
        return
    except Exception as e:                                    # noqa: BLE001
        raise Violation("%s: raised %s (%s), expected %s" % (
            what or _name(fn), type(e).__name__, str(e)[:200], exc))
    raise Violation("%s: accepted, returned %s" % (
        what or _name(fn), _brief(r)))


def _name(fn):
    return getattr(fn, "__qualname__", None) or repr(fn)[:80]


def _brief(x):
    s = np.array2string(x, threshold=12, precision=5) \
        if isinstance(x, np.ndarray) else repr(x)
    return s[:300]


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key=key)


def arr(x, shape=None, what="result", cplx=None, finite=True, key=None):
    """Judge that x is a numeric array (of this shape/kind) and return it."""
    try:
        a = np.asarray(x)
    except Exception as e:                                    # noqa: BLE001
        raise Violation("%s is not an array: %s" % (what, e), key=key)
    if a.dtype == object or not np.issubdtype(a.dtype, np.number):
        raise Violation("%s is not numeric: %s" % (what, _brief(x)), key=key)
    if shape is not None and a.shape != tuple(shape):
        raise Violation("%s has shape %s, expected %s" % (
            what, a.shape, tuple(shape)), key=key)
    if cplx is True and not np.iscomplexobj(a):
        raise Violation("%s is not complex" % what, key=key)
    if cplx is False and np.iscomplexobj(a):
        raise Violation("%s is complex" % what, key=key)
    if finite and not np.all(np.isfinite(a)):
        raise Violation("%s is not finite: %s" % (what, _brief(a)), key=key)
    return a


def norm(a):
    """Euclidean norm whose squares neither overflow nor underflow."""
    a = np.ravel(a)
    # in double precision, as reals: dividing complex numbers by a denormal one
    # gives NaN
    a = np.concatenate([a.real, a.imag]).astype(float) \
        if np.iscomplexobj(a) else a.astype(float)
    m = float(np.max(np.abs(a))) if a.size else 0.0
    if m == 0 or not np.isfinite(m):
        return m
    return m*float(np.linalg.norm(a/m))


def relerr(a, b, floor=0.0):
    a, b = np.asarray(a), np.asarray(b)
    d = norm(a - b)
    s = max(norm(b), floor)
    if d == 0:
        return 0.0
    return d / s if s > 0 else np.inf


def close(a, b, tol, what, floor=0.0, key=None, cplx=None):
    """||a-b|| <= tol * max(||b||, floor), same shape, finite."""
    b = np.asarray(b)
    a = arr(a, b.shape, what, cplx=cplx, key=key)
    e = relerr(a, b, floor)
    if not e <= tol:
        raise Violation("%s: relative error %.3g > %.3g\n got %s\n expected %s"
                        % (what, e, tol, _brief(a), _brief(b)), key=key)
    return e


def density(a, log, tol, what):
    """a = exp(log) point by point: some densities are far smaller than
    others."""
    log = np.asarray(log)
    a = arr(a, log.shape, what, cplx=False, finite=False)
    in_ = np.abs(log) < 600
    close(a[in_]/np.exp(log[in_]), np.ones(np.count_nonzero(in_)), tol,
          what + " over its reference")
    need(np.all(a[log <= -600] <= 1e-250) and np.all(a[log >= 600] >= 1e250),
         lambda: "%s is %s where its logarithm is %s" % (
             what, _brief(a), _brief(log)))


def same(a, b, what, key=None):
    """Bit-for-bit equal values and shape."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
        raise Violation("%s: not identical\n got %s\n expected %s" % (
            what, _brief(a), _brief(b)), key=key)


def herm(a, tol=1e-10, what="result", key=None):
    a = np.asarray(a)
    t = np.swapaxes(a, -1, -2).conj()
    need(norm(a - t) <= tol * max(norm(a), 1e-300),
         lambda: "%s is not Hermitian: %s" % (what, _brief(a)), key=key)


def posdef(a, what="result", key=None, tol=0.0):
    a = arr(a, None, what, key=key)
    w = np.linalg.eigvalsh((a + np.swapaxes(a, -1, -2).conj()) / 2)
    need(np.all(w > tol * np.max(np.abs(w))),
         lambda: "%s is not positive definite: eigenvalues %s" % (
             what, _brief(w)), key=key)


# ------------------------------------------------------------------ driving
def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def run_case(s, case, known):
    """Run one case. -> (rec, violation-or-None).  Known findings are recorded
    on rec and are not violations."""
    rec = Rec()
    guard = threading.current_thread() is threading.main_thread()

    def hang(*_):
        raise Violation("%s in %d s" % (SILENT, HANG))
    try:
        if guard:
            old = signal.signal(signal.SIGALRM, hang)
            signal.alarm(HANG)
        try:
            s.fn(case, rec)
        finally:
            if guard:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
    except Violation as v:
        if v.key is not None and (s.pid, s.name, v.key) in known:
            rec.known.append(v.key)
            return rec, None
        return rec, v
    except Exception as e:                                    # noqa: BLE001
        import hypothesis.errors as he
        if isinstance(e, (he.UnsatisfiedAssumption, he.HypothesisException,
                          HarnessError)):
            raise
        tbs = traceback.extract_tb(e.__traceback__)
        if any(os.path.realpath(t.filename).startswith(
                os.path.realpath(REPO) + os.sep) for t in tbs):
            return rec, Violation("code under test raised %s: %s (%s:%s)" % (
                type(e).__name__, str(e)[:300], tbs[-1].filename,
                tbs[-1].lineno))
        if isinstance(e, (AttributeError, TypeError, ValueError, LookupError,
                          ArithmeticError, AssertionError,
                          np.linalg.LinAlgError)):
            # what the code under test returned cannot even be judged
            return rec, Violation("result cannot be judged, %s: %s (line %d)"
                                  % (type(e).__name__, str(e)[:300],
                                     tbs[-1].lineno))
        raise HarnessError("%s/%s: %s" % (
            s.pid, s.name, traceback.format_exc()[-3000:])) from e
    return rec, None


def drive(s, tier, seed, shard, known, max_examples=None):
    """One Hypothesis campaign for one sub-check and shard."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    n = max_examples or (s.quick if tier == "quick" else s.thorough)
    n = max(1, -(-n // s.shards))
    h = int(hashlib.sha1(("%s|%s|%s|%d|%d" % (
        s.pid, s.name, tier, seed, shard)).encode()).hexdigest()[:12], 16)
    st = {"evaluations": 0, "ids": set(), "nontrivial": set(), "labels": {},
          "samples": [], "known": {}, "last": None, "rejected": 0,
          "found": float("inf"), "cut": 0}

    class _Fail(Exception):
        pass

    t0 = time.monotonic()
    budget = BUDGET.get(tier, 10**9)

    def body(case):
        import random
        now = time.monotonic()
        if now - t0 > budget or now - st["found"] > SHRINK:
            st["cut"] += 1
            return
        np.random.seed(case_seed(case))
        random.seed(case_seed(case))
        try:
            rec, v = run_case(s, case, known)
        except HarnessError:
            raise
        except Exception:
            st["rejected"] += 1
            raise
        if st["last"] is None:       # counts describe the search, not shrinking
            st["evaluations"] += 1
            cid = case_id(case)
            st["ids"].add(cid)
            for l in rec.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            for k in rec.known:
                st["known"].setdefault(k, case)
            if rec.nontrivial and cid not in st["nontrivial"]:
                st["nontrivial"].add(cid)
                if len(st["samples"]) < 2:
                    st["samples"].append(case)
        if v is not None:
            st["last"] = (case, str(v), v.key)
            st["found"] = min(st["found"], time.monotonic())
            raise _Fail()

    test = given(s.strategy)(body)
    test = hypothesis.seed(h)(test)
    test = settings(
        max_examples=n, database=None, deadline=None, print_blob=False,
        derandomize=False, report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=[HealthCheck.too_slow,
                               HealthCheck.data_too_large,
                               HealthCheck.large_base_example])(test)
    import contextlib
    import io
    sink = io.StringIO()
    try:
        # progress bars and solver chatter of the code under test; Hypothesis'
        # own report
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            test()
    except _Fail:
        pass
    except HarnessError:
        raise
    except BaseException as e:                                # noqa: BLE001
        if st["last"] is None:
            raise HarnessError("%s/%s: %s" % (
                s.pid, s.name, traceback.format_exc()[-3000:])) from e
    out = {"sub": s.name, "shard": shard, "evaluations": st["evaluations"],
           "ids": sorted(st["ids"]), "nontrivial": sorted(st["nontrivial"]),
           "labels": st["labels"], "samples": st["samples"],
           "known": st["known"], "violation": None,
           "rejected": st["rejected"], "cut": st["cut"]}
    if st["last"]:
        out["violation"] = {"case": st["last"][0], "msg": st["last"][1],
                            "key": st["last"][2]}
    return out


def case_seed(case):
    """Seed of numpy's *global* generator for a case (the code under test draws
    from it): a pure function of the generated case."""
    return int(case_id(case)[:8], 16)


def absclose(a, b, tol, what):
    """max |a-b| <= tol, same shape, finite."""
    b = np.asarray(b)
    a = arr(a, b.shape, what)
    e = float(np.max(np.abs(a-b))) if b.size else 0.
    need(e <= tol, lambda: "%s: error %.3g > %.3g\n got %s\n expected %s" % (
        what, e, tol, _brief(a), _brief(b)))
