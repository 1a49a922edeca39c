"""C15: natural-gradient Tyler estimates."""
import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st

from robuststats.estimation import covariance as EC

from .. import gen
from ..core import META, arr, close, herm, need, posdef, sub, sut
from . import mest
from .c14 import factor

META["C15"] = {"assumptions": [
    "at least 3p+4 samples in general position, so that the minimiser is "
    "unique up to scale and the descent converges within the solver's limits",
    "agreement up to 5e-6 in whitened coordinates (solver stopping rule)"]}
NORMS = ["None", "trace", "determinant", "element"]


@st.composite
def case(draw, pmax=5):
    c = draw(mest.case("tyler", big=False, pmax=pmax, ratio=(3, 8), extra=4,
                       max_logc=2, nbig=600))
    c["start"] = draw(st.sampled_from(["none", "none", "eye", "rand",
                                       "scaled"]))
    c["norm"] = draw(st.sampled_from(NORMS))
    c["class"] = draw(st.booleans())
    return c


def natural(c, x, init, norm):
    """-> shape, reported value"""
    if c["class"]:
        e = sut(mest.make, "tyler", None, c["cplx"], normalisation=norm,
                method="natural gradient")
        need(sut(e.fit, x, init=init) is e, "fit does not return itself")
        return e.covariance_, e.err_
    f = EC.complex_tyler_shape_matrix_naturalgradient if c["cplx"] \
        else EC.tyler_shape_matrix_naturalgradient
    r = sut(f, x, init=init, normalisation=norm)
    need(len(r) == 3, "returns %d values" % len(r))
    return r[0], r[1]


def cost(y, s):
    n, p = y.shape
    return p*np.sum(np.log(mest.quad(y, s))) + n*np.linalg.slogdet(s)[1]


def valid(c, s):
    p = c["p"]
    arr(s, (p, p), "estimate", cplx=c["cplx"])
    herm(s, 1e-9, "estimate")
    posdef(s, "estimate")


def start(c):
    s = mest.start(c, c["start"])
    return s


@sub("C15", "both_methods_agree", case(), quick=160, shards=4, rule="p > 1")
def _(c, rec):
    x = mest.setup(c)
    s, v = natural(c, x, start(c), c["norm"])
    valid(c, s)
    r = sut(mest.call, "tyler", None, x, tol=1e-12, iter_max=20000,
            normalisation=c["norm"])[0]
    d = mest.dist(s, r, True)
    need(d < 5e-6, lambda: "natural gradient and fixed point differ by %.3g"
         % d)
    if c["norm"] != "None":
        close(factor(c["norm"], s), 1.0, 1e-8, "normalised %s" % c["norm"])
        need(mest.dist(s, r) < 1e-3, "normalised estimates differ")
    # independent reference for the fixed point itself
    t = mest.step("tyler", None, x, s)
    need(mest.dist(t, s, True) < 5e-6, "natural gradient does not solve "
         "Tyler's equation")
    rec.nt(c["p"] > 1)
    mest.label(c, rec)
    rec.label("start=" + c["start"], "class" if c["class"] else "function")


@sub("C15", "reported_value_and_optimality", case(), quick=120, shards=4,
     rule="p > 1")
def _(c, rec):
    x = mest.setup(c)
    n, p = x.shape
    s, v = natural(c, x, start(c), c["norm"])
    valid(c, s)
    y = x/np.linalg.norm(x, axis=1)[:, None]
    j = cost(y, s)
    mag = n*p + p*np.sum(np.abs(np.log(mest.quad(y, s)))) \
        + n*abs(np.linalg.slogdet(s)[1])
    v = arr(v, (), "reported value", cplx=False)
    # the value is reported before normalisation, the cost has no scale
    need(abs(v + j) <= 1e-9*mag, lambda: "reported %.10g, minus the cost is "
         "%.10g" % (v, -j))
    comp = [("sample covariance", mest.scm(x)),
            ("sample covariance of unit samples", mest.scm(y)),
            ("identity", np.eye(p)),
            ("generating matrix", gen.cov(c["cov"], p, c["cplx"]))]
    lo = np.linalg.cholesky(s)
    for i, e in enumerate([1e-3, 1e-2, .1, 1, 1e-2, .1]):
        h = gen.normal(c["key"], "dir%d" % i, (p, p), c["cplx"])
        h = h + h.conj().T
        comp.append(("a neighbour at %g" % e,
                     lo @ sla.expm(e*h/np.linalg.norm(h)) @ lo.conj().T))
    for what, m in comp:
        need(cost(y, m) >= j - 1e-8*mag, lambda: "%s has a lower cost: %.10g "
             "< %.10g" % (what, cost(y, m), j))
    rec.nt(p > 1)
    mest.label(c, rec)


@sub("C15", "starting_point_does_not_matter", case(), quick=60, shards=4,
     rule="p > 1")
def _(c, rec):
    x = mest.setup(c)
    p = c["p"]
    inits = [None, np.eye(p, dtype=x.dtype),
             mest.start(c, "rand", "i1"), mest.scm(x)]
    r = None
    for i in inits:
        b = None if i is None else np.array(i)
        s, _ = natural(c, x, i, c["norm"])
        valid(c, s)
        need(i is None or np.array_equal(i, b), "starting point modified")
        if r is None:
            r = s
        d = mest.dist(s, r, True)
        need(d < 1e-5, lambda: "results from two starting points differ by "
             "%.3g" % d)
    # starting at the solution stays there
    r = sut(mest.call, "tyler", None, x, tol=1e-12, iter_max=20000)[0]
    s, _ = natural(c, x, np.array(r), "None")
    d = mest.dist(s, r)
    need(d < 5e-6, lambda: "started at the solution, moved by %.3g" % d)
    rec.nt(p > 1)
    mest.label(c, rec)


@st.composite
def frame_case(draw):
    return {"p": draw(st.integers(1, 6)), "key": draw(gen.KEY),
            "cplx": draw(st.booleans()), "rep": draw(st.integers(1, 3)),
            "class": draw(st.booleans()),
            "scale": draw(st.sampled_from([1e-3, 1, 1e3]))}


@sub("C15", "start_at_exact_minimum", frame_case(), quick=60,
     rule="p > 1")
def _(c, rec):
    """Orthonormal frames: the identity is a minimiser and the gradient there
    is zero up to rounding, or exactly."""
    p = c["p"]
    if c["key"] % 2:
        x = np.eye(p, dtype=complex if c["cplx"] else float)
    else:
        x = gen.unitary(c["key"], "U", p, c["cplx"])
    x = np.concatenate([c["scale"]*x]*c["rep"] + [
        gen.unitary(c["key"], "V", p, c["cplx"])])
    s, v = natural(c, x, np.eye(p, dtype=x.dtype), "None")
    valid(c, s)
    d = mest.dist(s, np.eye(p), True)
    need(d < 1e-5, lambda: "identity is a minimiser, result at %.3g" % d)
    rec.nt(p > 1)


@sub("C15", "started_close_to_the_solution", st.tuples(
    case(), st.integers(4, 14)), quick=80, shards=4, rule="p > 1")
def _(t, rec):
    c, e = t
    x = mest.setup(c)
    p = c["p"]
    r = sut(mest.call, "tyler", None, x, tol=1e-13, iter_max=20000)[0]
    lo = np.linalg.cholesky(r)
    h = gen.normal(c["key"], "near", (p, p), c["cplx"])
    h = h + h.conj().T
    i = lo @ sla.expm(10**(-e/2)*h/np.linalg.norm(h)) @ lo.conj().T
    s, _ = natural(c, x, i, c["norm"])
    valid(c, s)
    d, d0 = mest.dist(s, r, True), mest.dist(i, r, True)
    # the starting point is itself within what the other checks accept: only
    # here does a descent that gives up at once show
    need(d < 5e-6, lambda: "started at %.3g from the solution, ended at %.3g"
         % (d0, d))
    rec.nt(p > 1)
    mest.label(c, rec)
    rec.label("start at 1e-%d" % (e//2))
