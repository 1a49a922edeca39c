"""C13: Tyler's fixed-point estimates."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import META, arr, close, herm, need, posdef, sub, sut
from . import mest
from .mest import H

META["C13"] = {"assumptions": [
    "data in general position without zero samples, at least n = 2p+3 samples "
    "where convergence is required",
    "the reference uses linear solves instead of the inverse square root"]}


@st.composite
def iter_case(draw):
    c = draw(mest.case("tyler", max_logc=3))
    c["k"] = draw(st.integers(1, 6))
    c["start"] = draw(mest.START)
    return c


@sub("C13", "documented_iteration", iter_case(), quick=700,
     rule="p > 1 and more than one iteration")
def _(c, rec):
    x = mest.setup(c)
    s0 = mest.start(c, c["start"])
    s = mest.scm(x) if s0 is None else s0
    worst = 1.0
    for _ in range(c["k"]):
        worst = max(worst, np.linalg.cond(s))
        s = mest.step("tyler", None, x, s)
    worst = max(worst, np.linalg.cond(s))
    if worst > 1e8:
        return
    got = sut(mest.call, "tyler", None, x, init=s0, tol=-1.0,
              iter_max=c["k"])
    need(len(got) == 3, "returns %d values" % len(got))
    arr(got[0], s.shape, "estimate", cplx=c["cplx"])
    d = mest.dist(got[0], s)
    need(d <= 1e-12*worst*c["k"] + 1e-10, lambda: "estimate after %d "
         "iterations from %s differs from the recursion by %.3g" % (
             c["k"], c["start"], d))
    need(got[2] == c["k"], "reports %s iterations for %s" % (
        got[2], c["k"]))
    rec.nt(c["p"] > 1 and c["k"] > 1)
    mest.label(c, rec)
    rec.label("start=" + c["start"])


@st.composite
def conv_case(draw):
    c = draw(mest.case("tyler", max_logc=3))
    c["tol"] = draw(st.sampled_from([1e-3, 1e-4, 1e-6, 1e-9, 1e-11]))
    c["start"] = draw(mest.START)
    c["class"] = draw(st.booleans())
    return c


@sub("C13", "solves_tyler_equation", conv_case(), quick=400,
     rule="p > 1, converged in more than two iterations")
def _(c, rec):
    x = mest.setup(c)
    s0 = mest.start(c, c["start"])
    if np.linalg.cond(mest.scm(x)) > 1e9:
        return
    if c["class"]:
        e = sut(mest.make, "tyler", None, c["cplx"], tol=c["tol"],
                iter_max=5000)
        need(sut(e.fit, x, init=s0) is e, "fit does not return the estimator")
        s, delta, it = e.covariance_, e.err_, e.iteration_
    else:
        s, delta, it = sut(mest.call, "tyler", None, x, init=s0,
                           tol=c["tol"], iter_max=5000)
    arr(s, (c["p"],)*2, "estimate", cplx=c["cplx"])
    herm(s, 1e-12, "estimate")
    posdef(s, "estimate")
    need(it < 5000 or delta <= c["tol"], "no convergence in 5000 iterations")
    need(delta <= c["tol"], "stopped before the tolerance")
    r = np.linalg.norm(mest.step("tyler", None, x, s)-s)/np.linalg.norm(s)
    tol = 10*c["tol"] + 1e-14*np.linalg.cond(s)*10
    need(r <= tol, lambda: "residual of Tyler's equation %.3g for a tolerance "
         "of %.3g" % (r, c["tol"]))
    rec.nt(c["p"] > 1 and it > 2)
    mest.label(c, rec)
    rec.label("tol=%g" % c["tol"])


def tight(x, init=None, **k):
    """Converged estimate (tolerance 1e-12, affine-invariantly checked)."""
    s, d, it = sut(mest.call, "tyler", None, x, init=init, tol=1e-12,
                   iter_max=20000, **k)
    s = arr(s, (x.shape[1],)*2, "estimate")
    need(np.all(np.linalg.eigvalsh((s+H(s))/2) > 0),
         "estimate is not positive definite")
    return s


@st.composite
def inv_case(draw):
    c = draw(mest.case("tyler", tails=["gauss", "student", "outliers"]))
    c["loga"] = draw(st.sampled_from([0, 1, 3, 6]))
    c["what"] = draw(st.sampled_from(["scale", "phase", "permute", "linear",
                                      "init", "conj"]))
    c["logc2"] = draw(st.sampled_from([.5, 1, 2]))
    c["start"] = draw(st.sampled_from(["eye", "scaled", "rand"]))
    return c


@sub("C13", "invariances_of_the_estimate", inv_case(), quick=500,
     rule="p > 1")
def _(c, rec):
    x = np.array(mest.setup(c))
    n, p = x.shape
    g = gen.rng(c["key"], "inv")
    ref = tight(x)
    a = np.eye(p)
    y, init = x, None
    if c["what"] == "scale":
        y = x*(10.0**(c["loga"]*(g.random(n)-.5)))[:, None]
    elif c["what"] == "phase":
        ph = np.exp(2j*np.pi*g.random(n)) if c["cplx"] else \
            np.where(g.random(n) < .5, -1.0, 1.0)
        y = x*ph[:, None]
    elif c["what"] == "permute":
        y = x[g.permutation(n)]
    elif c["what"] == "linear":
        a = gen.mixing(c["key"], "A", p, c["cplx"], c["logc2"])
        y = x @ a.T
    elif c["what"] == "init":
        init = mest.start(c, c["start"])
    elif c["what"] == "conj":
        y = x.conj()
    got = tight(gen.layout(y, c["layout"]), init)
    want = a @ ref @ H(a)
    if c["what"] == "conj":
        want = ref.conj()
    # what the stopping rule leaves, amplified by slow convergence near p/n=1/2
    # and by conditioning (the rule is not affine invariant)
    k = max(np.linalg.cond(want), np.linalg.cond(ref))
    d = mest.dist(got, want, True)
    tol = 1e-7 + 1e-9*k
    need(d <= tol, lambda: "%s: shapes differ by %.3g" % (c["what"], d))
    if c["what"] in ("phase", "permute"):
        # the very same iteration
        d = mest.dist(got, want)
        need(d <= tol, lambda: "%s: estimates differ by %.3g" % (
            c["what"], d))
    rec.nt(p > 1)
    mest.label(c, rec)
    rec.label(c["what"])


@sub("C13", "true_shape_recovered", mest.case("tyler", big=False), quick=40,
     rule="p > 1")
def _(c, rec):
    """Consistency, whatever the texture (CLT scale, 8 sigma)."""
    p, n = c["p"], 4000
    cov = gen.cov(c["cov"], p, c["cplx"])
    x = gen.data(dict(c, n=n, values="any"))
    s = tight(x)
    # asymptotic covariance of the shape: (1+2/p)/n real, (1+1/p)/n complex
    d = mest.dist(s, cov, True)
    lim = 8*np.sqrt((p+1)*(1+2/p)/n)
    need(d <= lim, lambda: "shape estimated from %d samples is at %.3g from "
         "the true one (limit %.3g)" % (n, d, lim))
    rec.nt(p > 1)
    mest.label(c, rec)
