"""C16: Student-t estimator and its score."""
import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st
from scipy.special import gammaln

from .. import gen
from ..core import META, arr, close, herm, need, posdef, sub, sut
from . import mest
from .mest import H

META["C16"] = {"assumptions": [
    "centred data in general position, at least 2p+3 samples, degrees of "
    "freedom 0.2..1e8",
    "the likelihood oracle is the closed-form Student-t density in SciPy's "
    "convention (on the real representation for complex data)"]}


def loglik(x, s, df):
    """Sum of the log-densities."""
    n, p = x.shape
    q = mest.quad(x, s)
    ld = np.linalg.slogdet(s)[1]
    if np.iscomplexobj(x):
        # real law of dimension 2p, shape half of the block matrix
        d, qr, ldr = 2*p, 2*q, 2*ld - 2*p*np.log(2)
    else:
        d, qr, ldr = p, q, ld
    return n*(gammaln((df+d)/2) - gammaln(df/2) - d/2*np.log(np.pi*df)
              - ldr/2) - (df+d)/2*np.sum(np.log1p(qr/df))


def scale_of(x, s, df):
    """Magnitude of the cancelling terms."""
    n, p = x.shape
    return n*p*10 + n*abs(np.linalg.slogdet(s)[1]) + (df+2*p)*np.sum(
        np.log1p(mest.quad(x, s)/df)) + n*df


@st.composite
def case(draw, **k):
    c = draw(mest.case("student", **k))
    c["start"] = draw(mest.START)
    c["k"] = draw(st.integers(1, 6))
    c["class"] = draw(st.booleans())
    return c


def fit(c, x, init=None, tol=1e-4, iter_max=100):
    if c["class"]:
        e = sut(mest.make, "student", c["par"], c["cplx"], tol=tol,
                iter_max=iter_max)
        need(sut(e.fit, x, init=init) is e, "fit does not return itself")
        return e.covariance_, e.err_, e.iteration_
    return sut(mest.call, "student", c["par"], x, init=init, tol=tol,
               iter_max=iter_max)


@sub("C16", "documented_iteration", case(max_logc=3), quick=600,
     rule="p > 1 and more than one iteration")
def _(c, rec):
    x = mest.setup(c)
    s0 = mest.start(c, c["start"])
    s = mest.scm(x) if s0 is None else s0
    worst = 1.0
    for _ in range(c["k"]):
        worst = max(worst, np.linalg.cond(s))
        s = mest.step("student", c["par"], x, s)
    worst = max(worst, np.linalg.cond(s))
    if worst > 1e8:
        return
    got, _, it = fit(c, x, s0, -1.0, c["k"])
    arr(got, s.shape, "estimate", cplx=c["cplx"])
    herm(got, 1e-12, "estimate")
    posdef(got, "estimate")
    d = mest.dist(got, s)
    need(d <= 1e-12*worst*c["k"] + 1e-10, lambda: "estimate after %d "
         "iterations differs from the EM recursion by %.3g" % (c["k"], d))
    rec.nt(c["p"] > 1 and c["k"] > 1)
    mest.label(c, rec)
    rec.label("df=%g" % c["par"], "start=" + c["start"])


@sub("C16", "score_is_the_log_likelihood", case(), quick=400,
     rule="p > 1, scored data differ from the training data")
def _(c, rec):
    x = mest.setup(c)
    e = sut(mest.make, "student", c["par"], c["cplx"], tol=1e-6)
    sut(e.fit, x, init=mest.start(c, c["start"]))
    y = gen.data(dict(c, n=1+c["key"] % 9, tail="gauss"), "y")
    s = np.asarray(e.covariance_)
    tol = 1e-11 + 1e-14*np.linalg.cond(s)*10
    for what, z in (("training", x), ("test", y), ("single sample", y[:1])):
        v = arr(sut(e.score, z), (), "score", cplx=False)
        r = loglik(np.asarray(z), s, c["par"])
        need(abs(v-r) <= tol*scale_of(np.asarray(z), s, c["par"]),
             lambda: "%s score %.10g, log-likelihood %.10g" % (what, v, r))
    rec.nt(c["p"] > 1)
    mest.label(c, rec)
    rec.label("df=%g" % c["par"])


@sub("C16", "likelihood_never_decreases", case(), quick=300,
     rule="p > 1 and at least three iterations")
def _(c, rec):
    x = mest.setup(c)
    df = c["par"]
    s0 = mest.start(c, c["start"])
    s = mest.scm(x) if s0 is None else s0
    if np.linalg.cond(mest.scm(x)) > 1e9:
        return
    prev = loglik(x, s, df)
    for k in range(1, c["k"]+1):
        e = sut(mest.make, "student", df, c["cplx"], tol=-1.0, iter_max=k)
        sut(e.fit, x, init=s0)
        v = sut(e.score, x)
        need(v >= prev - 1e-10*scale_of(x, e.covariance_, df), lambda:
             "score falls from %.10g to %.10g at iteration %d" % (
                 prev, v, k))
        prev = v
    rec.nt(c["p"] > 1 and c["k"] >= 3)
    mest.label(c, rec)


@sub("C16", "no_matrix_scores_higher", case(big=False, pmax=5), quick=200,
     shards=2, rule="p > 1, converged")
def _(c, rec):
    x = mest.setup(c)
    n, p = x.shape
    df = c["par"]
    if np.linalg.cond(mest.scm(x)) > 1e8:
        return
    s, delta, it = fit(c, x, mest.start(c, c["start"]), 1e-10, 20000)
    arr(s, (p, p), "estimate", cplx=c["cplx"])
    need(delta <= 1e-10, lambda: "no convergence in %s iterations" % it)
    r = np.linalg.norm(mest.step("student", df, x, s)-s)/np.linalg.norm(s)
    need(r <= 1e-9 + 1e-13*np.linalg.cond(s), lambda: "residual of the likelihood equation "
         "%.3g" % r)
    e = sut(mest.make, "student", df, c["cplx"], tol=1e-10, iter_max=20000)
    best = sut(sut(e.fit, x).score, x)
    tol = 1e-9*scale_of(x, s, df)
    need(abs(loglik(x, s, df) - best) <= tol, "score at the estimate")
    comp = [("sample covariance", mest.scm(x)),
            ("generating matrix", gen.cov(c["cov"], p, c["cplx"]))]
    for f in (.5, .9, 1.1, 2):
        comp.append(("%g times the estimate" % f, f*s))
    lo = np.linalg.cholesky((s+H(s))/2)
    for i, h in enumerate([1e-2, .1, 1, .1]):
        d = gen.normal(c["key"], "dir%d" % i, (p, p), c["cplx"])
        d = d + H(d)
        comp.append(("a neighbour at %g" % h,
                     lo @ sla.expm(h*d/np.linalg.norm(d)) @ H(lo)))
    for what, m in comp:
        v = loglik(x, m, df)
        need(v <= best + tol, lambda: "%s has a higher likelihood: %.10g > "
             "%.10g" % (what, v, best))
    rec.nt(p > 1)
    mest.label(c, rec)
    rec.label("df=%g" % df)


@st.composite
def equi_case(draw):
    c = draw(case(tails=["gauss", "student", "outliers"]))
    c["logc2"] = draw(st.sampled_from([.5, 1, 2]))
    c["what"] = draw(st.sampled_from(["linear", "scale", "permute", "phase"]))
    c["iter"] = draw(st.sampled_from([1, 3, 10, 60]))
    return c


@sub("C16", "follows_linear_maps_exactly", equi_case(), quick=400,
     rule="p > 1, linear map")
def _(c, rec):
    """Same number of iterations, starting points in correspondence."""
    x = np.array(mest.setup(c))
    n, p = x.shape
    g = gen.rng(c["key"], "eq")
    a = np.eye(p)
    if c["what"] == "linear":
        a = gen.mixing(c["key"], "A", p, c["cplx"], c["logc2"])
    elif c["what"] == "scale":
        a = 10.0**(6*g.random()-3)*np.eye(p)
    y = x @ a.T
    if c["what"] == "permute":
        y = y[g.permutation(n)]
    if c["what"] == "phase":
        y = y*(np.exp(2j*np.pi*g.random(n)) if c["cplx"] else
               np.sign(g.random(n)-.5))[:, None]
    s0 = mest.start(c, c["start"])
    s = arr(fit(c, x, s0, -1.0, c["iter"])[0], (p, p), "estimate")
    t = arr(fit(c, gen.layout(y, c["layout"]),
                None if s0 is None else a @ s0 @ H(a), -1.0, c["iter"])[0],
            (p, p), "estimate")
    k = max(np.linalg.cond(s), np.linalg.cond(t), np.linalg.cond(mest.scm(y)),
            np.linalg.cond(mest.scm(x)))
    if k > 1e9:
        return
    d = mest.dist(t, a @ s @ H(a))
    need(d <= 1e-11*k**.5*c["iter"] + 1e-13*k*c["iter"], lambda:
         "%s: estimates differ by %.3g" % (c["what"], d))
    rec.nt(p > 1 and c["what"] == "linear")
    mest.label(c, rec)
    rec.label(c["what"])


@sub("C16", "tends_to_sample_covariance", case(tails=["gauss"]), quick=150,
     rule="p > 1")
def _(c, rec):
    x = mest.setup(c)
    df = [1e5, 1e6, 1e8][c["k"] % 3]
    s, delta, it = fit(dict(c, par=df), x, None, 1e-10, 1000)
    m = mest.scm(x)
    # weights differ from one by (p - q)/df
    q = mest.quad(x, m)
    d = mest.dist(s, m)
    lim = 3*(np.max(q)+c["p"])/df*np.sqrt(c["p"])*2 + 1e-10*np.linalg.cond(m)
    need(d <= lim, lambda: "at %g degrees of freedom the estimate is at %.3g "
         "from the sample covariance" % (df, d))
    rec.nt(c["p"] > 1)
    mest.label(c, rec)


@st.composite
def clt_case(draw):
    return {"p": draw(st.integers(1, 4)), "key": draw(gen.KEY),
            "cplx": draw(st.booleans()), "cov": draw(gen.cov_spec(2, 2)),
            "par": draw(st.sampled_from([1, 2.5, 6, 30]))}


@sub("C16", "true_matrix_recovered", clt_case(), quick=40, rule="p > 1")
def _(c, rec):
    """Consistency for Student-t data of the same degrees of freedom, drawn
    independently of the package (8 sigma of the information bound)."""
    p, n, df = c["p"], 5000, c["par"]
    cov = gen.cov(c["cov"], p, c["cplx"])
    g = gen.normal(c["key"], "x", (n, p), c["cplx"])
    w, v = np.linalg.eigh(cov)
    x = g @ ((v*np.sqrt(w)) @ H(v)).T
    x = x/np.sqrt(gen.rng(c["key"], "chi").chisquare(df, n)/df)[:, None]
    e = sut(mest.make, "student", df, c["cplx"], tol=1e-9, iter_max=5000)
    s = sut(e.fit, x).covariance_
    d = mest.dist(s, cov)
    # shape terms, scale term, loss of information through the texture
    lim = 8*np.sqrt(((p+1)*(1+2/p) + 2 + 4/df)*(1 + 2/(df+p))/n)
    need(d <= lim, lambda: "estimate from %d samples is at %.3g from the true "
         "matrix (limit %.3g)" % (n, d, lim))
    rec.nt(p > 1)
    rec.label("df=%g" % df, "complex" if c["cplx"] else "real")
