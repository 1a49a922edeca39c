"""C22: Kronecker structured Tyler estimation."""
import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st

from robuststats.estimation.structured import (
    KroneckerEllipticalMM, estimation_cov_kronecker_MM)

from .. import gen
from ..core import META, arr, close, herm, need, posdef, sub, sut
from . import kron, mest
from .mest import H

META["C22"] = {"assumptions": [
    "factors of size 1..4, at least 2ab+3 samples in general position",
    "the estimator class is for complex data; the function is checked on "
    "real data too"]}


UNITS = (-10, -6, 6, 10)


def run(c, x, tol=1e-3, iter_max=30):
    """-> A, B, delta, iterations (class or function)"""
    r = sut(estimation_cov_kronecker_MM, x, c["a"], c["b"], tol=tol,
            iter_max=iter_max)
    need(r is not None and len(r) == 4, "returns %s" % type(r))
    valid(c, r[0], r[1])
    return r


def valid(c, A, B):
    for m, n, what in ((A, c["a"], "left factor"), (B, c["b"],
                                                    "right factor")):
        arr(m, (n, n), what, cplx=True if c["cplx"] else None)
        herm(m, 1e-9, what)
        posdef(m, what)


@sub("C22", "cost_never_increases", kron.case(nmin=1, units=UNITS), quick=250,
     rule="both factors of size > 1")
def _(c, rec):
    x = kron.data(c)
    prev = kron.cost(x, np.eye(c["a"]), np.eye(c["b"]))
    for k in range(1, 7):
        A, B, d, it = run(c, x, -1.0, k)
        need(it == k, "reports %s iterations for %d" % (it, k))
        v = kron.cost(x, A, B)
        need(v <= prev + 1e-9*kron.mag(x, A, B), lambda: "cost rises from "
             "%.10g to %.10g at iteration %d" % (prev, v, k))
        prev = v
    rec.nt(c["a"] > 1 and c["b"] > 1)
    kron.label(c, rec)


@sub("C22", "stationary_at_convergence", kron.case(nbig=800, units=UNITS),
     quick=200, shards=2,
     rule="both factors of size > 1")
def _(c, rec):
    x = kron.data(c)
    n, p = x.shape
    tol = 1e-8
    A, B, d, it = run(c, x, tol, 3000 if n < 100 else 300)
    need(d <= tol, "no convergence in %s iterations" % it)
    q = mest.quad(x, np.kron(A, B))
    mA, mB = kron.partial(x, None, p/q, A, B)
    for m, f, k, what in ((mA, A, c["b"], "left"), (mB, B, c["a"], "right")):
        e = mest.dist(m/k, f)
        need(e <= 1e-6, lambda: "%s factor: residual of the likelihood "
             "equation %.3g" % (what, e))
    j = kron.cost(x, A, B)
    lim = j - 1e-9*kron.mag(x, A, B)
    lA, lB = np.linalg.cholesky(A), np.linalg.cholesky(B)
    for i, h in enumerate([1e-2, .1, 1]):
        d = [gen.normal(c["key"], "d%d%d" % (i, t), (k, k), c["cplx"])
             for t, k in enumerate((c["a"], c["b"]))]
        d = [m + H(m) for m in d]
        A2 = lA @ sla.expm(h*d[0]/np.linalg.norm(d[0])) @ H(lA)
        B2 = lB @ sla.expm(h*d[1]/np.linalg.norm(d[1])) @ H(lB)
        for what, u, v in (("left", A2, B), ("right", A, B2),
                           ("both", A2, B2)):
            need(kron.cost(x, u, v) >= lim, lambda: "changing the %s factor "
                 "by %g lowers the cost" % (what, h))
    u, v = kron.factors(c)
    need(kron.cost(x, u, v) >= lim, "the generating factors have a lower "
         "cost")
    rec.nt(c["a"] > 1 and c["b"] > 1)
    kron.label(c, rec)
    rec.label("iterations<20" if it < 20 else "iterations>=20")


@st.composite
def equi_case(draw):
    c = draw(kron.case())
    c["what"] = draw(st.sampled_from(["scale", "phase", "permute", "linear",
                                      "conj"]))
    return c


@sub("C22", "invariances", equi_case(), quick=200, shards=2,
     rule="both factors of size > 1")
def _(c, rec):
    x = np.array(kron.data(c))
    n, p = x.shape
    g = gen.rng(c["key"], "inv")
    a, b = np.eye(c["a"]), np.eye(c["b"])
    A, B, _, _ = run(c, x, 1e-9, 5000)
    y = x
    if c["what"] == "scale":
        y = x*(10.0**(6*(g.random(n)-.5)))[:, None]
    elif c["what"] == "phase":
        y = x*(np.exp(2j*np.pi*g.random(n)) if c["cplx"] else
               np.sign(g.random(n)-.5))[:, None]
    elif c["what"] == "permute":
        y = x[g.permutation(n)]
    elif c["what"] == "linear":
        a = gen.mixing(c["key"], "a", c["a"], c["cplx"], .8)
        b = gen.mixing(c["key"], "b", c["b"], c["cplx"], .8)
        y = x @ np.kron(a, b).T
    elif c["what"] == "conj":
        y = x.conj()
    A2, B2, _, _ = run(c, gen.layout(y, c["layout"]), 1e-9, 5000)
    WA, WB = a @ A @ H(a), b @ B @ H(b)
    if c["what"] == "conj":
        WA, WB = A.conj(), B.conj()
    for m, w, what in ((A2, WA, "left"), (B2, WB, "right")):
        e = mest.dist(m, w, True)
        need(e <= 1e-5, lambda: "%s: %s factors differ by %.3g" % (
            c["what"], what, e))
    rec.nt(c["a"] > 1 and c["b"] > 1)
    kron.label(c, rec)
    rec.label(c["what"])


@st.composite
def cls_case(draw):
    c = draw(kron.case(cplx=True, nmin=1))
    c["tol"] = draw(st.sampled_from([1e-2, 1e-4, 1e-7]))
    c["iter"] = draw(st.sampled_from([1, 3, 100]))
    c["store"] = draw(st.booleans())
    return c


@sub("C22", "estimator_and_report", cls_case(), quick=250,
     rule="both factors of size > 1")
def _(c, rec):
    x = kron.data(c)
    A, B, d, it = run(c, x, c["tol"], c["iter"])
    need(1 <= it <= c["iter"], "reports %s iterations, limit %d" % (
        it, c["iter"]))
    need(it == c["iter"] or d <= c["tol"], "stopped before the tolerance")
    # the last change, from the iterate before
    A0, B0 = np.eye(c["a"]), np.eye(c["b"])
    if it > 1:
        A0, B0, d0, it0 = run(c, x, -1.0, it-1)
        need(d0 > c["tol"], "went on after reaching the tolerance")
    dA = np.linalg.norm(A-A0)/np.linalg.norm(A0)
    dB = np.linalg.norm(B-B0)/np.linalg.norm(B0)
    need(abs(d - max(dA, dB)) <= 1e-9 + 1e-6*d, lambda: "reported change "
         "%.6g, last changes of the factors %.6g and %.6g" % (d, dA, dB))
    e = sut(KroneckerEllipticalMM, c["a"], c["b"], tol=c["tol"],
            iter_max=c["iter"], store_precision=c["store"])
    need(sut(e.fit, x) is e, "fit does not return the estimator")
    close(e.A_, A, 1e-10, "left factor of the estimator")
    close(e.B_, B, 1e-10, "right factor of the estimator")
    close(e.covariance_, np.kron(A, B), 1e-10, "covariance of the estimator")
    close(sut(e.transform, x), np.kron(A, B), 1e-10, "transform")
    pr = sut(e.get_precision)
    close(pr @ np.kron(A, B), np.eye(c["p"]), 1e-7, "precision")
    need((e.precision_ is not None) == c["store"], "storage of the precision")
    rec.nt(c["a"] > 1 and c["b"] > 1)
    kron.label(c, rec)


@sub("C22", "true_factors_recovered", kron.case(amin=2, amax=3), quick=40,
     shards=2, rule="data generated with heavy tails or complex")
def _(c, rec):
    n = 1000
    x = kron.data(c, n=n)
    A, B, _, _ = run(c, x, 1e-7, 3000)
    p = c["p"]
    lim = 8*np.sqrt((c["a"]**2+c["b"]**2)*(1+2/p)/n)
    for m, w, what in zip((A, B), kron.factors(c), ("left", "right")):
        e = mest.dist(m, w, True)
        need(e <= lim, lambda: "%s factor at %.3g from the true one (limit "
             "%.3g)" % (what, e, lim))
    rec.nt(c["tail"] != "gauss" or c["cplx"])
    kron.label(c, rec)
