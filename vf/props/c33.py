"""C33: objects can be copied, pickled and used by several threads."""
import copy
import os
import pickle
import sys
import threading

import numpy as np
from hypothesis import strategies as st
from joblib import parallel_backend

import robuststats.estimation.base as B
import robuststats.estimation.covariance as C
import robuststats.estimation.structured as S
import robuststats.models.cost as CO
import robuststats.models.manifolds as MF
import robuststats.models.mappings as M
import robuststats.models.probability as P
import robuststats.utils.linalg as L
from robuststats.online.estimation import \
    StochasticGradientCovarianceEstimator as SG

from .. import ests, gen
from ..core import META, need, sub, sut
from ..env import REPO

CODE = os.path.join(os.path.realpath(REPO), "robuststats") + os.sep

META["C33"] = {"assumptions": [
    "threads share laws, manifolds, functions and transformers; each fits its "
    "own estimator and passes its own random generator (NumPy's global "
    "generator, and with it temp_seed, is not meant for concurrent use)",
    "interleavings are sampled, not enumerated: generated ones at the lines of "
    "robuststats (a seeded scheduler lets one thread run at a time), and those "
    "of CPython at its smallest switch interval"]}


class Turns:
    """Lets one thread run at a time and passes the turn at lines of
    robuststats, as a seeded generator says."""

    def __init__(self, n, key, stride):
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.rng = gen.rng(key, "turns")
        self.stride = stride          # mean number of lines between switches
        self.free = False             # given up: threads run freely
        self.switches = 0

    def pass_on(self, i, leave=False):
        if self.free:
            return
        if leave:
            self.alive.remove(i)
            if self.alive:
                self.sem[self.alive[self.rng.integers(
                    len(self.alive))]].release()
            return
        if self.stride > 1 and self.rng.integers(self.stride):
            return
        j = self.alive[self.rng.integers(len(self.alive))]
        if j != i:
            self.switches += 1
            self.sem[j].release()
            self.wait(i)

    def wait(self, i):
        if not self.free and not self.sem[i].acquire(timeout=15):
            self.free = True
            for s in self.sem:
                s.release(1000)

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.pass_on(i)
            return local

        def enter(frame, event, arg):
            f = frame.f_code.co_filename
            # displays run under tqdm's lock: never leave them halfway
            return local if f.startswith(CODE) and not f.endswith(
                "verbose.py") else None
        return enter


def spd(key, tag, p, cplx=True):
    x = gen.normal(key, tag, (2*p + 2, p), cplx)
    return x.T @ x.conj()/len(x) + .1*np.eye(p)


def shared(c):
    """the objects every thread uses"""
    p, key = c["p"], c["key"]
    mean, cov = gen.normal(key, "mean", p, True), spd(key, "cov", p)
    q = max(2, p)
    return {
        "normal": P.complex_multivariate_normal, "t": P.complex_multivariate_t,
        "frozen normal": P.complex_multivariate_normal(mean, cov),
        "frozen t": P.complex_multivariate_t(mean, cov, 3.),
        "hpd": MF.HermitianPositiveDefinite(p),
        "hpds": MF.HermitianPositiveDefinite(p, 3),
        "shpd": MF.SpecialHermitianPositiveDefinite(p),
        "spv": MF.StrictlyPositiveVectors(p, 2),
        "kron": MF.KroneckerHermitianPositiveElliptical(2, q, .9),
        "product": MF.WeightedProduct(
            [MF.HermitianPositiveDefinite(p), MF.StrictlyPositiveVectors(p)],
            [1., 2.5]),
        "covariances": B.CovariancesEstimation(
            C.ComplexTylerShapeMatrix(tol=-1, iter_max=3)),
        "features": B.FeaturesEstimation(ests.CovScale(3)),
    }


# ------------------------------------------------ what a thread does
def law(o, p, key, name):
    x = gen.normal(key, "x", (5, p), True)
    a = () if "frozen" in name else (
        gen.normal(key, "m", p, True), spd(key, "c", p)) + (
            (2.5,) if name == "t" else ())
    out = [o.logpdf(x, *a), o.pdf(x, *a), o.rvs(
        *a, size=6, random_state=np.random.RandomState(key % 2**31))]
    return out + ([o.entropy(*a)] if "normal" in name else [])


def points(key, tag, p, k):
    s = np.stack([spd(key, tag + str(i), p) for i in range(k)])
    return s[0] if k == 1 else s


def geometry(man, x, y, u, v):
    return [man.inner(x, u, v), man.norm(x, u), man.dist(x, y),
            man.exp(x, u), man.retr(x, u), man.log(x, y),
            man.transp(x, y, u), man.egrad2rgrad(x, u)]


def manifold(o, p, key, name):
    if name == "spv":
        x, y = (np.exp(gen.normal(key, t, (p, 2))) for t in "xy")
        return geometry(o, x, y, *(x*gen.normal(key, t, (p, 2))
                                   for t in "uv"))
    k = 3 if name == "hpds" else 1
    x, y = points(key, "x", p, k), points(key, "y", p, k)
    u, v = (points(key, t, p, k) - points(key, t + "'", p, k) for t in "uv")
    if name == "shpd":
        x, y = L.unit_determinant(x), L.unit_determinant(y)
        u, v = o.proj(x, u), o.proj(x, v)
    return geometry(o, x, y, u, v)


def product(o, p, key, name):
    if name == "kron":
        q = max(2, p)
        x, y = ([L.unit_determinant(spd(key, t + "a", 2)), spd(key, t, q)]
                for t in "xy")
        u = [x[0]*0 + o._manifolds[0].proj(x[0], spd(key, "ua", 2)),
             spd(key, "u", q) - 2*np.eye(q)]
    else:
        x, y = ([spd(key, t, p), np.exp(gen.normal(key, t, (p, 1)))]
                for t in "xy")
        u = [spd(key, "u", p) - 2*np.eye(p), gen.normal(key, "u", (p, 1))]
    return [o.inner(x, u, u), o.dist(x, y), *o.egrad2rgrad(x, u),
            *o.retr(x, u), *o.log(x, y)]


def estimator(o, p, key, name):
    x = gen.normal(key, "x", (3*p + 4, p), name[0] == "C")
    e = {"CTyler": C.ComplexTylerShapeMatrix(tol=-1, iter_max=8),
         "CStudent": C.ComplexCenteredStudentMLE(3., tol=-1, iter_max=8),
         "CHuber": C.ComplexHuberMEstimator(.8, tol=-1, iter_max=8),
         "Tyler": C.TylerShapeMatrix(tol=-1, iter_max=8),
         "Student": C.CenteredStudentMLE(3., tol=-1, iter_max=8),
         "Huber": C.HuberMEstimator(.8, tol=-1, iter_max=8),
         "CEmpirical": B.ComplexEmpiricalCovariance()}[name].fit(x)
    return [e.covariance_, e.precision_, e.mahalanobis(x),
            e.error_norm(np.eye(p))]


def structured(o, p, key, name):
    x = gen.normal(key, "x", (25, 4), True)
    if name == "CKron":
        e = S.KroneckerEllipticalMM(2, 2, tol=-1, iter_max=5).fit(x)
        return [e.covariance_]
    return [S.KroneckerStudent(2, 2, 3.).fit(x[:12]).covariance_]


def online(o, p, key, name):
    e = SG(o, ests.rgrad, .1)
    x = gen.normal(key, "x", (12, p), True)
    e.fit(x, init=spd(key, "i", p))
    return [e.covariance_]


def functions(o, p, key, name):
    s, x = spd(key, "s", p), gen.normal(key, "x", (2*p, p), True)
    v = L.vech(s)
    return [L.sqrtm(s), L.logm(s), L.invsqrtm(s), L.powm(s, .3), L.expm(s/9),
            L.vec(s), v, L.unvech(v), M.arraytoreal(x),
            M.covariancetocomplex(M.covariancetoreal(s)),
            CO.Tyler_cost_complex(x, s), CO.Tyler_cost_real(x.real, s.real),
            C.get_normalisation_function("determinant")(s)]


def transformer(o, p, key, name):
    x = gen.normal(key, "x", (7, 3*p + 4, p), True)
    if name == "covariances":
        return [o.transform(x)]
    return list(o.transform(x).export())


def array(o, p, key, name):
    f = B._FeatureArray((p, p), (p,))
    out = []
    for i in range(5):
        s = np.stack([spd(key, "f%d" % i, p)]*(i+1))
        f.append([s, gen.normal(key, "g%d" % i, (i+1, p))])
        out += [*f[len(f)-1].export(), f.vectorize()]
    return out + list(f.export())


OPS = {"normal": law, "t": law, "frozen normal": law, "frozen t": law,
       "hpd": manifold, "hpds": manifold, "shpd": manifold, "spv": manifold,
       "kron": product, "product": product, "covariances": transformer,
       "features": transformer, "array": array, "functions": functions,
       "online": online, "KStudent": structured, "CKron": structured,
       **dict.fromkeys(["CTyler", "CStudent", "CHuber", "Tyler", "Student",
                        "Huber", "CEmpirical"], estimator)}
SHARED = [k for k in OPS if k not in (
    "array", "functions", "online", "KStudent", "CKron", "CTyler", "CStudent",
    "CHuber", "Tyler", "Student", "Huber", "CEmpirical")]


def act(obj, p, op):
    name, key = op
    o = obj["hpd"] if name == "online" else obj.get(name)
    return [np.array(r) for r in OPS[name](o, p, key, name)]


def alike(got, want, what):
    need(len(got) == len(want), what + ": another number of results")
    for i, (a, b) in enumerate(zip(got, want)):
        need(a.shape == b.shape and a.dtype == b.dtype, lambda:
             "%s: result %d is %s %s, expected %s %s" % (
                 what, i, a.dtype, a.shape, b.dtype, b.shape))
        d = np.max(np.abs(a - b), initial=0)/max(
            np.max(np.abs(b), initial=0), 1e-300)
        need(d <= 1e-8, lambda: "%s: result %d differs by %.3g" % (
            what, i, d))


@st.composite
def threads(draw):
    n = draw(st.integers(2, 5))
    pool = draw(st.lists(st.sampled_from(sorted(OPS)), min_size=1, max_size=4,
                         unique=True))
    return {"p": draw(st.integers(1, 4)), "key": draw(gen.KEY),
            "loops": draw(st.sampled_from([1, 3, 10])),
            "threads": [draw(st.lists(st.tuples(
                st.sampled_from(pool), gen.KEY), min_size=1, max_size=4))
                for _ in range(n)]}


@st.composite
def turns(draw):
    c = draw(threads())
    c.update(turns=draw(gen.KEY), stride=draw(st.sampled_from([1, 1, 3, 20])),
             loops=1)
    return c


@sub("C33", "interleavings", turns(), quick=500, shards=3,
     rule="two threads use the same operation on different data, and the turn "
     "changed in it")
def _(c, rec):
    n = len(c["threads"])
    t = Turns(n, c["turns"], c["stride"])

    def begin(i):
        t.wait(i)
        sys.settrace(t.tracer(i))

    def end(i):
        sys.settrace(None)
        t.pass_on(i, leave=True)
    concurrently(c, rec, begin, end, lambda: t.sem[0].release())
    rec.nontrivial = rec.nontrivial and t.switches > 0
    if t.free:
        rec.label("turns given up")


@sub("C33", "threads", threads(), quick=60, shards=2,
     rule="two threads use the same operation on different data")
def _(c, rec):
    start = threading.Barrier(len(c["threads"]))
    pause = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        concurrently(c, rec, lambda i: start.wait(60), lambda i: None,
                     lambda: None)
    finally:
        sys.setswitchinterval(pause)


def concurrently(c, rec, begin, end, go):
    obj, p = shared(c), c["p"]
    plans = [[tuple(o) for o in t] for t in c["threads"]]
    want = [[sut(act, obj, p, op) for op in t] for t in plans]
    got, errors = [None]*len(plans), []

    def work(i):
        try:
            begin(i)
            got[i] = [[act(obj, p, op) for op in plans[i]]
                      for _ in range(c["loops"])]
        except Exception as e:                                # noqa: BLE001
            errors.append("%s: %s" % (type(e).__name__, e))
        finally:
            end(i)
    ts = [threading.Thread(target=work, args=(i,), daemon=True)
          for i in range(len(plans))]
    for t in ts:
        t.start()
    go()
    for t in ts:
        t.join(100)
    need(not any(t.is_alive() for t in ts), "threads block each other")
    need(not errors, lambda: "in threads only: %s" % errors[:2])
    for i, t in enumerate(plans):
        for r in got[i]:
            for op, a, b in zip(t, r, want[i]):
                alike(a, b, "%s in thread %d of %d" % (op[0], i, len(plans)))
    used = [set(o[0] for o in t) for t in plans]
    rec.nt(any(used[0] & u for u in used[1:]))
    rec.label(*sorted(set.union(*used)))


COPY = {"deepcopy": copy.deepcopy,
        "pickle": lambda o: pickle.loads(pickle.dumps(o)),
        "copy": copy.copy}


@st.composite
def copies(draw):
    return {"p": draw(st.integers(1, 4)), "key": draw(gen.KEY),
            "how": draw(st.lists(st.sampled_from(sorted(COPY)), min_size=1,
                                 max_size=3)),
            "op": draw(st.sampled_from(sorted(SHARED))),
            "before": draw(st.booleans()), "k1": draw(gen.KEY),
            "k2": draw(gen.KEY)}


@sub("C33", "copies", copies(), quick=300, rule="used before being copied")
def _(c, rec):
    obj, p = shared(c), c["p"]
    a, b = (c["op"], c["k1"]), (c["op"], c["k2"])
    wa, wb = sut(act, shared(c), p, a), sut(act, shared(c), p, b)
    if c["before"]:
        alike(sut(act, obj, p, a), wa, c["op"])
    o = obj[c["op"]]
    for how in c["how"]:
        o = sut(COPY[how], o)
    new = {c["op"]: o}
    what = "%s after %s" % (c["op"], "+".join(c["how"]))
    alike(sut(act, new, p, b), wb, what)
    alike(sut(act, obj, p, a), wa, c["op"] + " of which a copy was used")
    alike(sut(act, new, p, a), wa, what)
    rec.nt(c["before"])
    rec.label(c["op"], *c["how"])


@st.composite
def arrays(draw):
    return {"shape": draw(st.sampled_from([[1], [3], [2, 2], [2, 3]])),
            "key": draw(gen.KEY), "n": draw(st.integers(0, 4)),
            "how": draw(st.sampled_from(["deepcopy", "pickle"])),
            "grow": draw(st.lists(st.tuples(st.booleans(), st.integers(1, 3)),
                                  max_size=8)), "cplx": draw(st.booleans())}


@sub("C33", "copies_of_feature_arrays", arrays(), quick=200,
     rule="both grow after the copy")
def _(c, rec):
    sh = tuple(c["shape"])

    def block(tag, n):
        return gen.normal(c["key"], tag, (n,) + sh, c["cplx"])
    a, model = B._FeatureArray(sh), [[], []]
    if c["n"]:
        x = block("0", c["n"])
        sut(a.append, x)
        model = [[x], [x]]
    b = sut(COPY[c["how"]], a)
    for i, (first, n) in enumerate(c["grow"]):
        x = block("g%d" % i, n)
        sut((a if first else b).append, x)
        model[0 if first else 1].append(x)
    for f, m, what in ((a, model[0], "original"), (b, model[1], "copy")):
        m = np.concatenate(m) if m else np.zeros((0,) + sh)
        need(len(f) == len(m), lambda: "%s: %d points, expected %d" % (
            what, len(f), len(m)))
        if len(m):
            need(np.array_equal(np.reshape(sut(f.export), m.shape), m),
                 what + ": other points")
            need(sut(f.vectorize).shape[0] == len(m), what + ": vectorised")
    rec.nt(len({f for f, _ in c["grow"]}) == 2)
    rec.label(c["how"])


@st.composite
def backend(draw):
    return {"p": draw(st.integers(1, 4)), "n": draw(st.integers(1, 40)),
            "key": draw(gen.KEY), "jobs": draw(st.integers(2, 8)),
            "est": draw(st.sampled_from(["tyler", "student", "remember"])),
            "features": draw(st.booleans())}


@sub("C33", "transformers_with_threads", backend(), quick=80,
     rule="more trials than workers")
def _(c, rec):
    e = {"tyler": C.ComplexTylerShapeMatrix(tol=-1, iter_max=4),
         "student": C.ComplexCenteredStudentMLE(3., tol=-1, iter_max=4),
         "remember": ests.Remembering(.5)}[c["est"]]
    T = B.FeaturesEstimation if c["features"] else B.CovariancesEstimation
    x = gen.normal(c["key"], "x", (c["n"], 3*c["p"] + 4, c["p"]), True)

    def get(n):
        r = sut(T(e, n_jobs=n).transform, x)
        return [np.asarray(r.export() if c["features"] else r)]
    want = get(1)
    pause = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with parallel_backend("threading"):
            got = get(c["jobs"])
    finally:
        sys.setswitchinterval(pause)
    alike(got, want, "%s of %s by threads" % (T.__name__, c["est"]))
    need(not hasattr(e, "covariance_"), "the given estimator was fitted")
    rec.nt(c["n"] > c["jobs"])
    rec.label(c["est"], T.__name__)
