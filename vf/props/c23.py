"""C23: Kronecker Student-t maximum likelihood."""
import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st

from robuststats.estimation.structured import (
    KroneckerStudent, _generate_cost_function_kronecker_student,
    _generate_egrad_function_kronecker_student)

from .. import gen
from ..core import META, arr, close, herm, need, posdef, sub, sut
from . import kron, mest
from .c16 import loglik, scale_of
from .mest import H

META["C23"] = {"assumptions": [
    "complex data, factors of size 1..4, at least 2ab+3 samples in general "
    "position for the estimates, degrees of freedom 0.5..1000",
    "likelihood oracle: closed-form Student-t density in SciPy's convention "
    "on the real representation (C03)"]}

DF = st.one_of(st.sampled_from([.5, 1., 2.5, 3, 10., 100.]),
               st.integers(-6, 60).map(lambda i: 10**(i/20)))


@st.composite
def case(draw, **k):
    c = draw(kron.case(cplx=True, **k))
    c["df"] = draw(DF)
    c["loc"] = draw(st.sampled_from(["none", "zero", "given", "given"]))
    return c


def location(c):
    if c["loc"] == "none":
        return None
    if c["loc"] == "zero":
        return np.zeros(c["p"])
    return gen.normal(c["key"], "loc", (c["p"],), True)


def point(c, tag="pt"):
    """a point of the model, not the generating one"""
    A = gen.cov(dict(c["cB"], logs=0), c["a"], True, "A"+tag)
    B = gen.cov(dict(c["cA"], logs=c["cB"]["logs"]), c["b"], True, "B"+tag)
    return A.astype(complex), B.astype(complex)


def shifted(x, loc):
    return np.asarray(x) if loc is None else np.asarray(x) - loc


@sub("C23", "cost_is_minus_loglikelihood", case(nmin=0), quick=300,
     rule="both factors of size > 1, location given")
def _(c, rec):
    x, loc = kron.data(c), location(c)
    f = sut(_generate_cost_function_kronecker_student, x, c["df"], loc)
    for t in ("u", "v"):
        A, B = point(c, t)
        v = sut(f, A, B)
        y = shifted(x, loc)
        s = np.kron(A, B)
        w = -loglik(y, s, c["df"])
        need(np.isrealobj(v) and np.ndim(v) == 0, "cost is %r" % (v,))
        need(abs(v-w) <= 1e-10*scale_of(y, s, c["df"]), lambda: "cost %.12g,"
             " minus log-likelihood %.12g" % (v, w))
    rec.nt(c["a"] > 1 and c["b"] > 1 and c["loc"] == "given")
    kron.label(c, rec)


@sub("C23", "gradient_is_derivative", case(nmin=0), quick=300,
     rule="both factors of size > 1, location given")
def _(c, rec):
    x, loc = kron.data(c), location(c)
    A, B = point(c)
    g = sut(_generate_egrad_function_kronecker_student, x, c["a"], c["b"],
            c["df"], loc)
    r = sut(g, A, B)
    need(len(r) == 2, "gradient has %d parts" % len(r))
    gA = arr(r[0], (c["a"], c["a"]), "gradient in A")
    gB = arr(r[1], (c["b"], c["b"]), "gradient in B")
    y = shifted(x, loc)
    s = np.kron(A, B)
    n = len(y)
    w = (c["df"]+2*c["p"])/(c["df"]+2*mest.quad(y, s))
    mA, mB = kron.partial(y, None, w, A, B)
    iA, iB = np.linalg.inv(A), np.linalg.inv(B)
    wA = n*(c["b"]*iA - iA @ mA @ iA)
    wB = n*(c["a"]*iB - iB @ mB @ iB)
    lim = 1e-10*max(np.linalg.cond(A), np.linalg.cond(B))**2
    close(gA, wA, lim, "gradient in A", floor=n*c["b"]*np.linalg.norm(iA))
    close(gB, wB, lim, "gradient in B", floor=n*c["a"]*np.linalg.norm(iB))
    # and as a derivative of the closed-form likelihood along a direction
    lA, lB = np.linalg.cholesky(A), np.linalg.cholesky(B)
    d = [gen.normal(c["key"], "d%d" % i, m.shape, True)
         for i, m in enumerate((A, B))]
    dA, dB = [l @ (m+H(m)) @ H(l) for l, m in zip((lA, lB), d)]
    h = 1e-4/max(1, np.linalg.norm(d[0]), np.linalg.norm(d[1]))

    def j(t):
        return -loglik(y, np.kron(A+t*dA, B+t*dB), c["df"])
    num = (8*(j(h)-j(-h)) - (j(2*h)-j(-2*h)))/(12*h)
    ana = np.real(np.trace(H(gA) @ dA) + np.trace(H(gB) @ dB))
    tol = 1e-14*scale_of(y, s, c["df"])/h*10 + 1e-7*n*c["p"]*(
        np.linalg.norm(d[0])+np.linalg.norm(d[1]))
    need(abs(num-ana) <= tol, lambda: "directional derivative %.10g, by the "
         "gradient %.10g (tolerance %.2g)" % (num, ana, tol))
    rec.nt(c["a"] > 1 and c["b"] > 1 and c["loc"] == "given")
    kron.label(c, rec)


@st.composite
def fit_case(draw, **k):
    c = draw(case(**k))
    c["centred"] = draw(st.booleans())
    c["start"] = draw(st.sampled_from(["default", "default", "point",
                                       "truth"]))
    c["store"] = draw(st.booleans())
    return c


def start(c):
    if c["start"] == "point":
        A, B = point(c)
    elif c["start"] == "truth":
        A, B = kron.factors(c)
    else:
        A, B = np.eye(c["a"]), np.eye(c["b"])
    A = A/np.exp(np.linalg.slogdet(A)[1]/c["a"])
    return A.astype(complex), B.astype(complex)


def fit(c, x, **k):
    e = sut(KroneckerStudent, c["a"], c["b"], c["df"],
            assume_centered=c["centred"], store_precision=c["store"])
    o = {} if c["start"] == "default" else {"init": start(c)}
    o.update(k)
    need(sut(e.fit, x, **o) is e, "fit does not return the estimator")
    for m, n, w in ((e.A_, c["a"], "left factor"), (e.B_, c["b"],
                                                    "right factor")):
        arr(m, (n, n), w, cplx=True)
        herm(m, 1e-9, w)
        posdef(m, w)
    close(e.covariance_, np.kron(e.A_, e.B_), 1e-10, "covariance")
    return e


def residual(y, A, B, df):
    s = np.kron(A, B)
    w = (df+2*len(s))/(df+2*mest.quad(y, s))
    mA, mB = kron.partial(y, None, w, A, B)
    return max(mest.dist(mA/len(B), A), mest.dist(mB/len(A), B))


@sub("C23", "fit_is_stationary_and_best", fit_case(), quick=200, shards=4,
     rule="both factors of size > 1")
def _(c, rec):
    x = np.array(kron.data(c))
    if c["loc"] == "given":
        x = x + location(c)
    x = gen.layout(x, c["layout"])
    e = fit(c, x)
    A, B = e.A_, e.B_
    need(abs(np.linalg.det(A)-1) <= 1e-7, lambda: "determinant of the left "
         "factor is %s" % np.linalg.det(A))
    loc = np.zeros(c["p"]) if c["centred"] else np.mean(x, axis=0)
    close(e.location_, loc, 1e-12, "location", floor=1e-300)
    y = np.asarray(x) - loc
    j = loglik(y, np.kron(A, B), c["df"])
    lim = j + 1e-9*scale_of(y, np.kron(A, B), c["df"])
    A0, B0 = start(c)
    need(loglik(y, np.kron(A0, B0), c["df"]) <= lim, "the starting point has "
         "a higher likelihood")
    r = residual(y, A, B, c["df"])
    need(r <= 1e-5, lambda: "residual of the likelihood equations %.3g" % r)
    u, v = kron.factors(c)
    need(loglik(y, np.kron(u, v), c["df"]) <= lim, "the generating factors "
         "have a higher likelihood")
    lA, lB = np.linalg.cholesky(A), np.linalg.cholesky(B)
    for h in (1e-2, .1, 1):
        d = [gen.normal(c["key"], "h%g%d" % (h, i), m.shape, True)
             for i, m in enumerate((A, B))]
        d = [m+H(m) for m in d]
        A2 = lA @ sla.expm(h*d[0]/np.linalg.norm(d[0])) @ H(lA)
        B2 = lB @ sla.expm(h*d[1]/np.linalg.norm(d[1])) @ H(lB)
        for p, q in ((A2, B), (A, B2), (A2, B2)):
            need(loglik(y, np.kron(p, q), c["df"]) <= lim, lambda: "a change "
                 "by %g raises the likelihood" % h)
    # a warm start, at any distance of the optimum
    t = 10.0**-gen.rng(c["key"], "warm").integers(1, 9)
    d = gen.normal(c["key"], "warmA", A.shape, True)
    A3 = lA @ sla.expm(t*(d+H(d))/np.linalg.norm(d+H(d))) @ H(lA)
    A3 = (A3+H(A3))/2
    A3 = A3/np.exp(np.linalg.slogdet(A3)[1]/c["a"])
    f = fit(dict(c, start="default"), x, init=(A3, (1+t)*B))
    r = residual(y, f.A_, f.B_, c["df"])
    need(r <= 1e-5, lambda: "residual of the likelihood equations %.3g, "
         "started at %g from the optimum" % (r, t))
    rec.nt(c["a"] > 1 and c["b"] > 1)
    kron.label(c, rec)
    rec.label("start=" + c["start"], "warm=%g" % t, "centred" if c["centred"] else "mean",
              "df=%g" % c["df"])


@sub("C23", "score_is_the_loglikelihood", fit_case(amax=3), quick=120,
     shards=2, rule="both factors of size > 1, other data scored")
def _(c, rec):
    x = np.array(kron.data(c))
    if c["loc"] == "given":
        x = x + location(c)
    e = fit(c, x)
    kept = {k: np.array(getattr(e, k)) for k in ("A_", "B_", "covariance_",
                                                 "location_")}
    r = gen.rng(c["key"], "score")
    for i in range(3):
        m = int(r.integers(1, 9))
        z = [x, gen.normal(c["key"], "z", (m, c["p"]), True),
             x[:1]*100][i]
        s = np.kron(e.A_, e.B_)
        w = loglik(z - e.location_, s, c["df"])
        v = sut(e.score, gen.layout(z, c["layout"]))
        need(np.ndim(v) == 0 and abs(v-w) <= 1e-10*scale_of(
            z-e.location_, s, c["df"]), lambda: "score %s, log-likelihood "
             "of the data under the fitted model %.10g" % (v, w))
    for k, v in kept.items():
        need(np.array_equal(getattr(e, k), v), k + " changed by scoring")
    rec.nt(c["a"] > 1 and c["b"] > 1)
    kron.label(c, rec)


@st.composite
def equi_case(draw):
    c = draw(fit_case(amax=3))
    c["what"] = draw(st.sampled_from(["phase", "permute", "linear", "conj",
                                      "start", "shift"]))
    return c


@sub("C23", "equivariance", equi_case(), quick=120, shards=4,
     rule="both factors of size > 1")
def _(c, rec):
    x = np.array(kron.data(c))
    g = gen.rng(c["key"], "inv")
    if c["what"] == "phase":
        c["centred"] = True
    a, b = np.eye(c["a"]), np.eye(c["b"])
    e = fit(c, x)
    y, c2 = x, c
    if c["what"] == "phase":
        y = x*np.exp(2j*np.pi*g.random(len(x)))[:, None]
    elif c["what"] == "permute":
        y = x[g.permutation(len(x))]
    elif c["what"] == "linear":
        a = gen.mixing(c["key"], "a", c["a"], True, .8)
        b = gen.mixing(c["key"], "b", c["b"], True, .8)
        y = x @ np.kron(a, b).T
    elif c["what"] == "conj":
        y = x.conj()
    elif c["what"] == "start":
        c2 = dict(c, start="point" if c["start"] != "point" else "default")
    elif c["what"] == "shift":
        c = dict(c, centred=False)
        e, c2 = fit(c, x), c
        y = x + location(dict(c, loc="given"))
    f = fit(c2, y)
    WA, WB = a @ e.A_ @ H(a), b @ e.B_ @ H(b)
    if c["what"] == "conj":
        WA, WB = e.A_.conj(), e.B_.conj()
    k = np.exp(np.linalg.slogdet(WA)[1]/c["a"])
    for m, w, what in ((f.A_, WA/k, "left"), (f.B_, WB*k, "right")):
        d = mest.dist(m, w)
        need(d <= 1e-4, lambda: "%s: %s factors differ by %.3g" % (
            c["what"], what, d))
    rec.nt(c["a"] > 1 and c["b"] > 1)
    kron.label(c, rec)
    rec.label(c["what"])
