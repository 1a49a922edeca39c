"""C17: Huber's M-estimator."""
import numpy as np
from hypothesis import strategies as st

from robuststats.estimation import covariance as EC

from .. import gen
from ..core import META, arr, close, herm, need, posdef, rejects, sub, sut
from . import mest
from .mest import H

META["C17"] = {"assumptions": [
    "centred data in general position, at least 2p+3 samples",
    "threshold and scaling oracle: quantile of the Gaussian law of the "
    "quadratic form and numerical integration",
    "contamination below the breakdown point of the weights (half of "
    "scaling/threshold)"]}


@st.composite
def case(draw, **k):
    c = draw(mest.case("huber", **k))
    c["start"] = draw(mest.START)
    c["k"] = draw(st.integers(1, 6))
    c["class"] = draw(st.booleans())
    return c


def fit(c, x, init=None, tol=1e-4, iter_max=100):
    if c["class"]:
        e = sut(mest.make, "huber", c["par"], c["cplx"], tol=tol,
                iter_max=iter_max)
        need(sut(e.fit, x, init=init) is e, "fit does not return itself")
        return e.covariance_, e.err_, e.iteration_
    return sut(mest.call, "huber", c["par"], x, init=init, tol=tol,
               iter_max=iter_max)


@sub("C17", "documented_iteration", case(max_logc=3), quick=600,
     rule="p > 1, samples on both sides of the threshold")
def _(c, rec):
    x = mest.setup(c)
    s0 = mest.start(c, c["start"])
    s = mest.scm(x) if s0 is None else s0
    worst, both = 1.0, False
    lam = mest.huber_constants(c["par"], c["p"], c["cplx"])[0]
    for _ in range(c["k"]):
        worst = max(worst, np.linalg.cond(s))
        q = mest.quad(x, s)
        both |= bool(np.any(q < lam) and np.any(q > lam))
        s = mest.step("huber", c["par"], x, s)
    worst = max(worst, np.linalg.cond(s))
    if worst > 1e8:
        return
    got, _, it = fit(c, x, s0, -1.0, c["k"])
    arr(got, s.shape, "estimate", cplx=c["cplx"])
    herm(got, 1e-12, "estimate")
    posdef(got, "estimate")
    d = mest.dist(got, s)
    need(d <= 1e-12*worst*c["k"] + 1e-9, lambda: "estimate after %d "
         "iterations differs from Huber's recursion by %.3g" % (c["k"], d))
    rec.nt(c["p"] > 1 and both)
    mest.label(c, rec)
    rec.label("q=%g" % c["par"], "start=" + c["start"])


@sub("C17", "solves_huber_equation", case(), quick=400,
     rule="p > 1, samples on both sides of the threshold")
def _(c, rec):
    x = mest.setup(c)
    p = c["p"]
    if np.linalg.cond(mest.scm(x)) > 1e9:
        return
    tol = [1e-4, 1e-6, 1e-10][c["k"] % 3]
    s, delta, it = fit(c, x, mest.start(c, c["start"]), tol, 20000)
    arr(s, (p, p), "estimate", cplx=c["cplx"])
    herm(s, 1e-12, "estimate")
    posdef(s, "estimate")
    need(delta <= tol, lambda: "no convergence in %s iterations" % it)
    # Huber's equation, written with its two sums
    lam, beta = mest.huber_constants(c["par"], p, c["cplx"])
    q = mest.quad(x, s)
    r = np.zeros((p, p), dtype=s.dtype)
    for v, t in zip(x, q):
        r = r + np.outer(v, v.conj())*(1 if t <= lam else lam/t)
    r = r/(len(x)*beta)
    e = np.linalg.norm(r-s)/np.linalg.norm(s)
    need(e <= 10*tol + 1e-13*np.linalg.cond(s), lambda: "residual of Huber's "
         "equation %.3g for a tolerance of %g" % (e, tol))
    rec.nt(p > 1 and np.any(q < lam) and np.any(q > lam))
    mest.label(c, rec)
    rec.label("q=%g" % c["par"])


@sub("C17", "uncorrupted_data_give_sample_covariance",
     case(tails=["gauss", "student"]), quick=200, rule="p > 1")
def _(c, rec):
    x = mest.setup(c)
    m = mest.scm(x)
    k = np.linalg.cond(m)
    if k > 1e9:
        return
    s = fit(dict(c, par=1), x, mest.start(c, c["start"]), 1e-10, 1000)[0]
    d = mest.dist(arr(s, m.shape, "estimate"), m)
    need(d < 1e-12*k, lambda: "all data uncorrupted: estimate at %.3g from "
         "the sample covariance" % d)
    # approaching it: the threshold passes every sample
    for q in (.99999, 1-1e-9, 1-1e-12):
        lam, beta = mest.huber_constants(q, c["p"], c["cplx"])
        if np.max(mest.quad(x, m)) < .5*lam:
            s = fit(dict(c, par=q), x, None, 1e-10, 1000)[0]
            d = mest.dist(arr(s, m.shape, "estimate"), m)
            need(d < 10*(1-q)*c["p"]*10 + 1e-12*k + 3e-11*1e3, lambda:
                 "quantile %r: estimate at %.3g from the sample covariance"
                 % (q, d))
    rec.nt(c["p"] > 1)
    mest.label(c, rec)


@st.composite
def equi_case(draw):
    c = draw(case(tails=["gauss", "student", "outliers"]))
    c["logc2"] = draw(st.sampled_from([.5, 1, 2]))
    c["what"] = draw(st.sampled_from(["linear", "scale", "permute", "phase"]))
    c["iter"] = draw(st.sampled_from([1, 3, 10, 60]))
    return c


@sub("C17", "follows_linear_maps", equi_case(), quick=400,
     rule="p > 1, linear map")
def _(c, rec):
    x = np.array(mest.setup(c))
    n, p = x.shape
    g = gen.rng(c["key"], "eq")
    a = np.eye(p)
    if c["what"] == "linear":
        a = gen.mixing(c["key"], "A", p, c["cplx"], c["logc2"])
    elif c["what"] == "scale":
        a = 10.0**(6*g.random()-3)*np.eye(p)
    y = x @ a.T
    if c["what"] == "permute":
        y = y[g.permutation(n)]
    if c["what"] == "phase":
        y = y*(np.exp(2j*np.pi*g.random(n)) if c["cplx"] else
               np.sign(g.random(n)-.5))[:, None]
    s0 = mest.start(c, c["start"])
    s = arr(fit(c, x, s0, -1.0, c["iter"])[0], (p, p), "estimate")
    t = arr(fit(c, gen.layout(y, c["layout"]),
                None if s0 is None else a @ s0 @ H(a), -1.0, c["iter"])[0],
            (p, p), "estimate")
    k = max(np.linalg.cond(s), np.linalg.cond(t), np.linalg.cond(mest.scm(y)),
            np.linalg.cond(mest.scm(x)))
    if k > 1e9:
        return
    d = mest.dist(t, a @ s @ H(a))
    need(d <= 1e-11*k**.5*c["iter"] + 1e-13*k*c["iter"], lambda:
         "%s: estimates differ by %.3g" % (c["what"], d))
    rec.nt(p > 1 and c["what"] == "linear")
    mest.label(c, rec)
    rec.label(c["what"])


@st.composite
def outlier_case(draw):
    return {"p": draw(st.integers(1, 4)), "key": draw(gen.KEY),
            "cplx": draw(st.booleans()), "cov": draw(gen.cov_spec(1, 1)),
            "q": draw(st.sampled_from([.5, .7, .9, .95])),
            "m": draw(st.integers(1, 4)), "same": draw(st.booleans()),
            "log1": draw(st.integers(2, 5)),
            "log2": draw(st.sampled_from([5, 6, 20, 100])),
            "class": draw(st.booleans())}


@sub("C17", "bounded_influence_of_outliers", outlier_case(), quick=150,
     rule="p > 1")
def _(c, rec):
    p, m = c["p"], c["m"]
    lam, beta = mest.huber_constants(c["q"], p, c["cplx"])
    # the outliers hold at most half of the weight that breaks the estimate
    n = int(np.ceil(max(2*m*lam/beta, 8*p + 8 + 4*m)))
    cov = gen.cov(c["cov"], p, c["cplx"])
    w, v = np.linalg.eigh(cov)
    x = gen.normal(c["key"], "x", (n, p), c["cplx"]) @ (
        (v*np.sqrt(w)) @ H(v)).T
    d = gen.normal(c["key"], "d", (1 if c["same"] else m, p), c["cplx"])
    d = d/np.linalg.norm(d, axis=1)[:, None]*np.sqrt(np.trace(cov).real)
    k = dict(c, par=c["q"])
    clean = fit(k, x, None, 1e-9, 20000)[0]

    def with_outliers(size, init):
        y = x.copy()
        y[:m] = d*size
        s, delta, it = fit(k, y, init, 1e-9, 20000)
        arr(s, (p, p), "estimate with outliers of size %g" % size)
        posdef(s, "estimate with outliers of size %g" % size)
        need(delta <= 1e-9, "no convergence with outliers")
        return s
    s1 = with_outliers(10.0**c["log1"], None)
    s2 = with_outliers(10.0**c["log2"], cov.copy())
    r1, r2 = [np.trace(np.linalg.solve(clean, s)).real/p for s in (s1, s2)]
    need(r1 < 30 and r2 < 30, lambda: "outliers multiply the estimate by %.3g "
         "and %.3g" % (r1, r2))
    if c["log1"] >= 4:
        e = mest.dist(s1, s2)
        need(e < 1e-2, lambda: "estimates with outliers of size 1e%d and 1e%d "
             "differ by %.3g" % (c["log1"], c["log2"], e))
    rec.nt(p > 1)
    rec.label("q=%g" % c["q"], "complex" if c["cplx"] else "real",
              "size=1e%d" % c["log2"])


@st.composite
def clt_case(draw):
    return {"p": draw(st.integers(1, 5)), "key": draw(gen.KEY),
            "cplx": draw(st.booleans()), "cov": draw(gen.cov_spec(2, 2)),
            "par": draw(st.sampled_from([.3, .5, .7, .9, .99]))}


@sub("C17", "consistent_for_gaussian_data", clt_case(), quick=40,
     rule="p > 1")
def _(c, rec):
    p, n = c["p"], 5000
    cov = gen.cov(c["cov"], p, c["cplx"])
    w, v = np.linalg.eigh(cov)
    x = gen.normal(c["key"], "x", (n, p), c["cplx"]) @ (
        (v*np.sqrt(w)) @ H(v)).T
    e = sut(mest.make, "huber", c["par"], c["cplx"], tol=1e-8, iter_max=2000)
    s = sut(e.fit, x).covariance_
    # variance at most about twice that of Tyler's shape plus a scale term
    d, lim = mest.dist(s, cov), 8*np.sqrt((p+3)*(1+2/p)*1.5/n)
    need(d <= lim, lambda: "estimate from %d Gaussian samples at %.3g from "
         "the true covariance (limit %.3g)" % (n, d, lim))
    rec.nt(p > 1)
    rec.label("q=%g" % c["par"], "complex" if c["cplx"] else "real")


@st.composite
def weight_case(draw):
    return {"key": draw(gen.KEY), "n": draw(st.integers(1, 12)),
            "loglam": draw(st.integers(-12, 12)),
            "logbeta": draw(st.integers(-12, 12)),
            "spread": draw(st.integers(0, 6)),
            "bad": draw(st.sampled_from(["lam0", "lam-", "beta-", "both"]))}


@sub("C17", "weight_function", weight_case(), quick=200,
     rule="values on both sides of the threshold")
def _(c, rec):
    u = getattr(EC, "_huber_m_estimator_function", None)
    lam, beta = 2.0**c["loglam"], 2.0**c["logbeta"]
    x = lam*10.0**(c["spread"]*(gen.rng(c["key"], "x").random(c["n"])-.5))
    rec.nt(np.any(x < lam) and np.any(x > lam))
    if u is None:
        rec.label("weight function is not exposed")
        return
    w = np.array([(1 if t <= lam else lam/t)/beta for t in x])
    close(sut(u, x, lam, beta), w, 1e-13, "weights")
    close(sut(u, x[0], lam, beta), w[0], 1e-13, "weight of one value")
    v = sut(u, np.array([lam, 0.0]), lam, beta)
    close(v, np.ones(2)/beta, 1e-13, "weight at the threshold and at zero")
    b = {"lam0": (0.0, beta), "lam-": (-lam, beta), "beta-": (lam, -beta),
         "both": (-lam, -beta)}[c["bad"]]
    rejects(u, x, *b, what="threshold %g and scaling %g" % b)
    for cl in mest.CLS["huber"]:
        # no positive threshold can come from a zero quantile
        e = sut(cl, q=0.0)
        y = gen.normal(c["key"], "y", (9, 2), cl is mest.CLS["huber"][1])
        rejects(e.fit, y, what="Huber fit with no datum uncorrupted")
