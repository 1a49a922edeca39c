"""C24: online estimation by stochastic gradient."""
import numpy as np
from hypothesis import strategies as st

from robuststats.models.manifolds import (
    HermitianPositiveDefinite, KroneckerHermitianPositiveElliptical)
from robuststats.online.estimation import StochasticGradientCovarianceEstimator

from .. import gen
from ..core import META, close, need, same, sub, sut

META["C24"] = {"assumptions": [
    "the gradient function given to the estimator is the Riemannian gradient "
    "of the cost to minimise; complex estimates, streams of up to 12 samples",
    "the step count after set_estimate in the middle of a run is not "
    "specified and not checked; update does not validate its batch"]}

SCHED = ["inverse iteration", "inverse iteration", "constant"]
LRATE = st.sampled_from([.01, .1, .3, .5, .95])
FORMS = ["array", "tuple", "list"]


class Affine:
    """Stand-in manifold whose retraction tells point, direction and order
    apart."""

    def retr(self, x, u):
        if isinstance(x, (tuple, list)):
            return [self.retr(a, b) for a, b in zip(x, u)]
        return x + u + .25*(u @ u)/(1 + np.linalg.norm(u))


def ref_retr(kind, x, u):
    if kind in ("affine", "several"):
        return [a + b + .25*(b @ b)/(1 + np.linalg.norm(b))
                for a, b in zip(x, u)]
    out = [a + b + b @ np.linalg.inv(a) @ b/2 for a, b in zip(x, u)]
    if kind == "kron":
        s, l = np.linalg.slogdet(out[0])
        out[0] = out[0]/np.exp(l/len(out[0]))
    return out


def ref_grad(kind, x, est):
    """Riemannian gradient of a Student-t (df = 3) log-likelihood term."""
    if kind == "several":               # any function will do
        y = x/np.linalg.norm(x)
        return [len(x)*s - (1+j)*y.T @ y.conj() for j, s in enumerate(est)]
    if kind in ("affine", "hpd"):
        s = est[0]
        p = len(s)
        q = np.real(np.einsum("ni,in->n", x.conj(),
                              np.linalg.solve(s, x.T)))
        w = (3+2*p)/(3+2*np.abs(q))
        return [len(x)*s - (x*w[:, None]).T @ x.conj()]
    A, B = est
    a, b = len(A), len(B)
    y = x.reshape(len(x), a, b)
    iA, iB = np.linalg.inv(A), np.linalg.inv(B)
    q = np.real(np.einsum("nik,ij,kl,njl->n", y.conj(), iA, iB, y))
    w = (3+2*a*b)/(3+2*q)
    mA = np.einsum("n,nik,lk,njl->ij", w, y, iB, y.conj())
    mB = np.einsum("n,nik,ji,njl->kl", w, y, iA, y.conj())
    gA = len(x)*b*A - mA
    gA = gA - np.real(np.trace(np.linalg.solve(A, gA)))/a*A
    gB = len(x)*a*B - mB
    return [gA/b, gB/a]


class Model:
    """What is given to the estimator, and the reference recursion."""

    def __init__(self, c):
        self.c, self.kind = c, c["kind"]
        self.calls = []                # batches the gradient was asked for
        self.boom = None               # (where, countdown)
        if self.kind in ("affine", "several"):
            self.man = Affine()
        elif self.kind == "hpd":
            self.man = HermitianPositiveDefinite(c["p"])
        else:
            self.man = KroneckerHermitianPositiveElliptical(
                c["a"], c["b"], 1.)
        self.multi = self.kind in ("kron", "several")
        self.form = c["form"] if self.multi else "array"

    def pack(self, parts):
        if self.form == "array":
            return parts[0]
        return tuple(parts) if self.form == "tuple" else list(parts)

    def unpack(self, est):
        if self.form == "array":
            return [np.asarray(est)]
        return [np.asarray(m) for m in est]

    def tick(self, where):
        if self.boom and self.boom[0] == where:
            self.boom[1] -= 1
            if self.boom[1] < 0:
                raise ArithmeticError("injected")

    def rgrad(self, X, est):
        self.tick("gradient")
        self.calls.append(np.array(X))
        return self.pack(ref_grad(self.kind, np.asarray(X),
                                  self.unpack(est)))

    def cov(self, parts):
        if self.kind == "kron":
            return np.kron(parts[0], parts[1])
        if self.kind == "several":
            return sum(parts)
        return parts[0] if not self.c["tocov"] else \
            parts[0] + 2*np.eye(len(parts[0]))

    def tocov(self, est):
        self.tick("covariance")
        return self.cov(self.unpack(est))

    def estimator(self, **k):
        o = {"estimatetocov": self.tocov}
        if not self.multi and not self.c["tocov"]:
            o = {}
        o.update(k)
        return sut(StochasticGradientCovarianceEstimator, self.man,
                   self.rgrad, self.c["lrate"], **o)

    def start(self, tag):
        c = self.c
        if self.kind == "kron":
            A = gen.cov(dict(c["cov"], logs=0), c["a"], True, tag+"A")
            return [A/np.exp(np.linalg.slogdet(A)[1]/c["a"]),
                    units(c)*gen.cov(dict(c["cov"], logs=0), c["b"], True,
                                     tag+"B")]
        return [units(c)*gen.cov(dict(c["cov"], logs=0), c["p"], True,
                                 tag + "%d" % i if i else tag)
                for i in range(c["parts"] if self.multi else 1)]

    def step(self, est, batch, t):
        g = ref_grad(self.kind, np.asarray(batch), est)
        return ref_retr(self.kind, est, [-t*m for m in g])


@st.composite
def base(draw):
    kind = draw(st.sampled_from(["affine", "hpd", "kron", "several"]))
    a, b = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {"kind": kind, "a": a, "b": b, "parts": draw(st.integers(1, 4)),
            "p": a*b if kind == "kron" else draw(st.integers(1, 5)),
            "key": draw(gen.KEY), "cov": draw(gen.cov_spec(1, 1)),
            "lrate": draw(LRATE), "form": draw(st.sampled_from(FORMS[1:])),
            "tocov": draw(st.booleans()),
            "units": draw(st.sampled_from([0, 0, 0, -10, -4, 4, 10])),
            "layout": draw(st.sampled_from(gen.LAYOUTS))}


def units(c):
    """the stand-in manifold has none"""
    return 1. if c["kind"] in ("affine", "several") else 10.0**c.get("units", 0)


def stream(c, tag, n):
    return gen.layout(units(c)**.5*gen.normal(
        c["key"], tag, (n, c["p"]), True), c["layout"])


def rate(c, sched, done):
    return c["lrate"]/(done+1) if sched == "inverse iteration" else c["lrate"]


def usable(est):
    """the recursion is well conditioned at this estimate"""
    return all(np.all(np.isfinite(m)) and np.linalg.cond(m) < 1e6
               and 1e-16 < np.linalg.norm(m) < 1e16 for m in est)


def agree(m, e, est, what, tol=1e-8):
    """estimate_ and everything derived from it"""
    got = m.unpack(e.estimate_)
    need(len(got) == len(est), "%s: estimate has %d parts" % (what, len(got)))
    for i, (g, w) in enumerate(zip(got, est)):
        close(g, w, tol, "%s: estimate (part %d)" % (what, i))
    consistent(m, e, what)


def consistent(m, e, what):
    w = m.cov(m.unpack(e.estimate_))
    close(e.covariance_, w, 1e-12, "%s: covariance of the estimate" % what)
    if np.linalg.cond(w) < 1e6:
        close(np.asarray(sut(e.get_precision)) @ w, np.eye(len(w)), 1e-7,
              "%s: precision times covariance" % what)


@st.composite
def fit_case(draw):
    c = draw(base())
    c["n"] = draw(gen.size(1, 12, 400, 12))
    c["sched"] = draw(st.sampled_from(SCHED))
    c["preset"] = draw(st.booleans())
    return c


@sub("C24", "fit_equals_recursion_and_updates", fit_case(), quick=250,
     rule="at least 3 samples, decreasing steps, dimension > 1")
def _(c, rec):
    m = Model(c)
    x = stream(c, "x", c["n"])
    est = m.start("init")
    want, ok = est, True
    for i in range(c["n"]):
        want = m.step(want, x[i:i+1], rate(c, c["sched"], i))
        ok = ok and usable(want)
    if not ok:
        rec.label("ill conditioned, skipped")
        return
    o = {} if c["sched"] == "inverse iteration" and c["key"] % 2 else \
        {"lr_update": c["sched"]}
    e = m.estimator()
    if c["preset"]:
        sut(e.set_estimate, m.pack([p.copy() for p in est]))
        agree(m, e, est, "set_estimate", 1e-14)
        r = sut(e.fit, x, **o)
    else:
        r = sut(e.fit, x, init=m.pack([p.copy() for p in est]), **o)
    need(r is e, "fit does not return the estimator")
    agree(m, e, want, "fit")
    need(len(m.calls) == c["n"], "gradient asked %d times for %d samples" % (
        len(m.calls), c["n"]))
    for i, b in enumerate(m.calls):
        same(b, x[i:i+1], "batch %d given to the gradient" % i)
    # one by one
    u = m.estimator()
    sut(u.set_estimate, m.pack([p.copy() for p in est]))
    for i in range(c["n"]):
        need(sut(u.update, x[i:i+1], c["sched"]) is u,
             "update does not return the estimator")
    agree(m, u, m.unpack(e.estimate_), "updates one by one", 1e-12)
    same(np.asarray(sut(e.transform, x)), e.covariance_, "transform")
    # display and cost change nothing
    seen = []

    def cost(X, s):
        seen.append(np.array(X))
        return float(len(seen))
    for k in ({"verbosity": True}, {"verbosity": True, "cost": cost},
              {"cost": cost}):
        v = m.estimator(**k)
        sut(v.fit, x, init=m.pack([p.copy() for p in est]), **o)
        for g, w in zip(m.unpack(v.estimate_), m.unpack(e.estimate_)):
            same(g, w, "estimate with %s" % sorted(k))
        same(v.covariance_, e.covariance_, "covariance with %s" % sorted(k))
    # services
    y = gen.normal(c["key"], "y", (3, c["p"]), True)
    s = e.covariance_
    if np.linalg.cond(s) < 1e6:
        close(sut(e.mahalanobis, y), np.real(np.einsum(
            "ni,in->n", y.conj(), np.linalg.solve(s, y.T))), 1e-7,
            "squared Mahalanobis distances")
    rec.nt(c["n"] > 2 and c["sched"] != "constant" and c["p"] > 1)
    rec.label(c["kind"], c["sched"], "layout=" + c["layout"],
              "init" if not c["preset"] else "preset")


OPS = ["fit", "fit", "update", "update", "batch", "set", "lrate", "refit",
       "nan", "empty", "boom", "verbose"]


@st.composite
def history(draw):
    c = draw(base())
    c["ops"] = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(OPS), "n": st.integers(1, 5),
        "at": st.integers(0, 4), "sched": st.sampled_from(SCHED),
        "lrate": LRATE, "where": st.sampled_from(["gradient", "covariance"]),
        "value": st.sampled_from(["nan", "inf", "-inf", "nanj"])}),
        min_size=1, max_size=12))
    return c


BAD = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "nanj": 1j*np.nan}


@sub("C24", "histories_against_reference", history(), quick=400, shards=2,
     rule="at least one fit after an update or fit, and an update after a fit")
def _(c, rec):
    c = dict(c)
    m = Model(c)
    e = m.estimator()
    est, done, vague = None, 0, False
    kinds = []
    for i, o in enumerate(c["ops"]):
        what = "operation %d (%s)" % (i, o["op"])
        op, tag = o["op"], "x%d" % i
        m.boom = None
        if est is not None and not usable(est):
            rec.label("ill conditioned, cut")
            break
        if op == "fit":
            x = stream(c, tag, o["n"])
            init = m.start(tag)
            r = sut(e.fit, x, init=m.pack([p.copy() for p in init]),
                    lr_update=o["sched"])
            est, done, vague = init, 0, False
            for row in x:
                est = m.step(est, row[None], rate(c, o["sched"], done))
                done += 1
        elif op == "refit":
            x = stream(c, tag, o["n"])
            r = sut(e.fit, x, lr_update=o["sched"])
            if est is not None:
                done, vague = 0, False
                for row in x:
                    est = m.step(est, row[None], rate(c, o["sched"], done))
                    done += 1
        elif op in ("update", "batch"):
            x = stream(c, tag, 1 if op == "update" else o["n"])
            sched = "constant" if vague else o["sched"]
            r = sut(e.update, x, sched)
            if est is not None:
                est = m.step(est, x, rate(c, sched, done))
                done += 1
        elif op == "set":
            vague = vague or done > 0
            est = m.start(tag)
            sut(e.set_estimate, m.pack([p.copy() for p in est]))
            r = e
        elif op == "lrate":
            c["lrate"] = o["lrate"]
            r = sut(e.set_params, lrate=o["lrate"])
        elif op == "verbose":
            r = sut(e.set_params, verbosity=bool(o["n"] % 2))
        elif op in ("nan", "empty"):
            x = np.array(stream(c, tag, o["n"]))
            if op == "nan":
                x[o["at"] % o["n"], o["n"] % c["p"]] = BAD[o["value"]]
            else:
                x = x[:0]
            try:
                e.fit(x, init=m.pack(m.start(tag)), lr_update=o["sched"])
            except ValueError:
                pass
            else:
                need(False, "%s: accepted" % what)
            r = e
        elif op == "boom":
            if o["where"] == "covariance" and not m.multi \
                    and not c["tocov"]:
                continue
            x = stream(c, tag, o["n"])
            m.boom = [o["where"], o["at"] % o["n"]]
            try:
                e.fit(x, init=m.pack(m.start(tag)), lr_update=o["sched"])
            except ArithmeticError:
                pass
            else:
                need(False, "%s: the error was swallowed" % what)
            r = e
            if e.estimate_ is not None:
                consistent(m, e, what)
                est, vague = m.unpack(e.estimate_), True
        need(r is e, "%s does not return the estimator" % what)
        kinds.append(op)
        if est is None:
            need(e.estimate_ is None, "%s: uninitialised estimator has an "
                 "estimate" % what)
            need(not hasattr(e, "covariance_"), "%s: uninitialised estimator "
                 "has a covariance" % what)
            rec.label("uninitialised")
        else:
            if not usable(est):
                rec.label("ill conditioned, cut")
                break
            agree(m, e, est, what)
            # errors do not build up over the history
            est = m.unpack(e.estimate_)
    s = ["f" if k == "fit" else "u" for k in kinds if k in (
        "fit", "refit", "update", "batch")]
    rec.nt("uf" in "".join(s) or "ff" in "".join(s) and "fu" in "".join(s))
    rec.label(m.kind)


@sub("C24", "steps_reduce_the_expected_cost", fit_case(), quick=100,
     rule="dimension > 1")
def _(c, rec):
    """One small full-batch step goes down the likelihood."""
    if c["kind"] in ("affine", "several"):
        c = dict(c, kind="hpd")
    c = dict(c, lrate=1e-3)
    m = Model(c)
    n = c["n"] + 2*c["p"]
    x = stream(c, "x", n)
    est = m.start("init")

    def cost(parts):
        s = parts[0] if m.kind == "hpd" else np.kron(*parts)
        q = np.real(np.einsum("ni,in->n", x.conj(), np.linalg.solve(s, x.T)))
        p = len(s)
        return n*np.linalg.slogdet(s)[1] + (1.5+p)*np.sum(
            np.log1p(2*q/3))
    e = m.estimator()
    e.set_estimate(m.pack([p.copy() for p in est]))
    sut(e.set_params, lrate=1e-3/n)
    sut(e.update, x, "constant")
    g = ref_grad(m.kind, np.asarray(x), est)
    w = [1] if m.kind == "hpd" else [c["b"], c["a"]]
    slope = sum(k*np.real(np.trace(np.linalg.solve(s, a) @ np.linalg.solve(
        s, a))) for k, s, a in zip(w, est, g))
    d = cost(m.unpack(e.estimate_)) - cost(est)
    need(d <= -.5*1e-3/n*slope + 1e-9*n*(1 + abs(c.get("units", 0))), lambda: "cost changes by %.3g, "
         "expected about %.3g" % (d, -1e-3/n*slope))
    rec.nt(c["p"] > 1)
    rec.label(m.kind)
