"""C05: functions of Hermitian matrices."""
import autograd
import numpy as np
import scipy.linalg as sla
from hypothesis import strategies as st

from robuststats.utils import linalg as L

from .. import gen
from ..core import META, arr, close, herm, need, posdef, sub, sut

META["C05"] = {"assumptions": [
    "condition numbers up to 1e8, tolerances proportional to the condition "
    "number of the function"]}
EPS = np.finfo(float).eps


@st.composite
def case(draw, pmax=12, max_logc=6):
    p = draw(gen.size(1, pmax//2, 5*pmax))
    return {"p": p, "key": draw(gen.KEY),
            "cov": draw(gen.cov_spec(max_logc, 4, units=gen.UNITS)),
            "cplx": draw(st.booleans()),
            "alpha": draw(st.sampled_from(
                [-3, -2, -1.5, -1, -.5, -.25, 0, .25, 1/3, .5, 1, 1.5, 2, 3])),
            "layout": draw(st.sampled_from(gen.LAYOUTS)),
            "autograd": draw(st.booleans())}


def mat(c):
    return gen.layout(gen.cov(c["cov"], c["p"], c["cplx"]), c["layout"])


def ref(c, m, f):
    w, v = sla.eigh(m, driver="evr")
    return (v*f(w)) @ v.conj().T


def label(c, rec):
    rec.label("complex" if c["cplx"] else "real", "cov="+c["cov"]["kind"],
              "autograd" if c["autograd"] else "numpy",
              "layout="+c["layout"], "p=%d" % c["p"])


def cond(m):
    w = np.linalg.eigvalsh(m)
    return w[-1]/w[0]


def common(c, rec, got, m, f, tol, what, pd=True):
    got = arr(got, m.shape, what)
    if not c["cplx"]:
        need(not np.iscomplexobj(got), "%s of a real matrix is complex" % what)
    herm(got, 1e-9 + tol, what)
    close(got, ref(c, m, f), tol, what)
    rec.nt(c["p"] > 1 and c["cov"]["kind"] not in ("ident", "diag"))
    label(c, rec)
    return got


@sub("C05", "square_root", case(), quick=250, rule="p > 1, non-diagonal")
def _(c, rec):
    m = mat(c)
    k = cond(m)
    r = common(c, rec, sut(L.sqrtm, m, c["autograd"]), m, np.sqrt,
               1e-12*k**.5 + 1e-11, "sqrtm")
    close(r @ r, m, 1e-11, "sqrtm squared")
    if k < 1e6:
        posdef(r, "sqrtm")
    if k < 1e5:
        close(r, sla.sqrtm(np.array(m)), 1e-9, "sqrtm against scipy")


@sub("C05", "inverse_square_root", case(), quick=250,
     rule="p > 1, non-diagonal")
def _(c, rec):
    m = mat(c)
    k = cond(m)
    r = common(c, rec, sut(L.invsqrtm, m, c["autograd"]), m,
               lambda w: 1/np.sqrt(w), 1e-13*k**1.0 + 1e-11, "invsqrtm")
    close(r @ m @ r, np.eye(c["p"]), 1e-12*k + 1e-10, "C^-1/2 C C^-1/2")
    s = sut(L.sqrtm, m)
    close(r @ s, np.eye(c["p"]), 1e-12*k + 1e-10, "C^-1/2 C^1/2")


@sub("C05", "logarithm_and_exponential", case(), quick=250,
     rule="p > 1, non-diagonal")
def _(c, rec):
    m = mat(c)
    k = cond(m)
    tol = 1e-13*k + 1e-10
    lg = arr(sut(L.logm, m, c["autograd"]), m.shape, "logm")
    herm(lg, 1e-9+tol, "logm") if np.linalg.norm(lg) > 1e-6 else None
    close(lg, ref(c, m, np.log), tol, "logm", floor=1)
    close(np.trace(lg), np.linalg.slogdet(m)[1], tol, "trace of logm",
          floor=1)
    close(sut(L.expm, lg, c["autograd"]), m, 1e-9 + tol, "expm(logm(C))")
    # the exponential is defined on any Hermitian matrix
    h = gen.normal(c["key"], "h", m.shape, c["cplx"])
    h = 2*(h + h.conj().T)
    e = common(c, rec, sut(L.expm, gen.layout(h, c["layout"]), c["autograd"]),
               h, np.exp, 1e-10, "expm")
    close(e, sla.expm(h), 1e-8, "expm against scipy")
    big = np.ptp(np.linalg.eigvalsh(h)) > 20
    if not big:
        posdef(e, "expm")
        close(sut(L.logm, e, c["autograd"]), h, 1e-6, "logm(expm(H))",
              floor=1)
        close(e @ sut(L.expm, -h), np.eye(c["p"]), 1e-6, "exp(H) exp(-H)")


@sub("C05", "powers", case(max_logc=3), quick=300,
     rule="p > 1, non-diagonal, exponent other than 0 and 1")
def _(c, rec):
    m = mat(c)
    a = c["alpha"]
    k = cond(m)
    tol = 1e-13*k**max(1, abs(a)) + 1e-11
    r = common(c, rec, sut(L.powm, m, a, c["autograd"]), m, lambda w: w**a,
               tol, "powm(%g)" % a)
    if a == 0:
        close(r, np.eye(c["p"]), 1e-10, "power 0")
    if a == 1:
        close(r, m, 1e-11, "power 1")
    if a == 2:
        close(r, m @ m, 1e-10, "power 2")
    if a == -1:
        close(r @ m, np.eye(c["p"]), tol*10+1e-12*k, "power -1 times C")
    if a == .5:
        close(r, sut(L.sqrtm, m), 1e-11, "power 1/2 against sqrtm")
    if a == -.5:
        close(r, sut(L.invsqrtm, m), tol, "power -1/2 against invsqrtm")
    b = .75
    # relative to norm products: C^a C^b = C^(a+b)
    rb = np.asarray(sut(L.powm, m, b))
    num = np.linalg.norm(r @ rb - np.asarray(sut(L.powm, m, a+b)))
    need(num <= (tol + 1e-10)*np.linalg.norm(r)*np.linalg.norm(rb),
         "C^a C^b != C^(a+b)")
    rec.nt(c["p"] > 1 and a not in (0, 1)
           and c["cov"]["kind"] not in ("ident", "diag"))


FUNCS = {"sqrtm": L.sqrtm, "invsqrtm": L.invsqrtm, "logm": L.logm,
         "expm": L.expm}


@sub("C05", "unitary_equivariance", case(max_logc=3), quick=150,
     rule="p > 1, non-diagonal")
def _(c, rec):
    m = mat(c)
    u = gen.unitary(c["key"], "U", c["p"], c["cplx"])
    k = cond(m)
    for n, f in FUNCS.items():
        x = m
        if n == "expm" and np.linalg.norm(m) > 100:
            x = m/np.linalg.norm(m)
        lhs = sut(f, u @ x @ u.conj().T, c["autograd"])
        rhs = u @ np.asarray(sut(f, x)) @ u.conj().T
        close(lhs, rhs, 1e-12*k + 1e-10, n + "(U C U^H)",
              floor=1 if n == "logm" else 0)
    lhs = sut(L.powm, u @ m @ u.conj().T, c["alpha"], c["autograd"])
    rhs = u @ np.asarray(sut(L.powm, m, c["alpha"])) @ u.conj().T
    close(lhs, rhs, 1e-12*k**max(1, abs(c["alpha"])) + 1e-10,
          "powm(U C U^H)")
    rec.nt(c["p"] > 1 and c["cov"]["kind"] not in ("ident", "diag"))
    label(c, rec)


@st.composite
def grad_case(draw):
    return {"p": draw(st.integers(1, 5)), "key": draw(gen.KEY),
            "f": draw(st.sampled_from(sorted(FUNCS) + ["powm"])),
            "alpha": draw(st.sampled_from([-1., .5, 1.5, 2.]))}


@sub("C05", "gradient_is_the_derivative", grad_case(), quick=120,
     rule="p > 1")
def _(c, rec):
    # real case; eigenvalues spread so that eigenvectors are differentiable
    p, key = c["p"], c["key"]
    q = gen.unitary(key, "q", p)
    w = 1 + np.arange(p) + .3*gen.rng(key, "w").random(p)
    m = (q*w) @ q.T
    m = (m+m.T)/2
    b = gen.normal(key, "b", (p, p))
    d = gen.normal(key, "d", (p, p))
    d = (d+d.T)/2
    d /= np.linalg.norm(d)
    if c["f"] == "powm":
        def f(x, ag):
            return L.powm(x, c["alpha"], ag)
    else:
        f = FUNCS[c["f"]]

    def cost(x):
        import autograd.numpy as npa
        return npa.sum(b*f(x, True))
    g = arr(sut(autograd.grad(cost), m), (p, p), "gradient", cplx=False)
    h = 1e-4

    def num(x):
        return np.sum(b*np.asarray(sut(f, x, False)))
    fd = (8*(num(m+h*d)-num(m-h*d))-(num(m+2*h*d)-num(m-2*h*d)))/(12*h)
    scale = np.linalg.norm(g) + 1
    need(abs(np.sum(g*d) - fd) <= 1e-6*scale*(1+np.exp(w[-1])
                                              if c["f"] == "expm" else 1),
         lambda: "gradient of <B, %s>: %.10g, finite difference %.10g" % (
             c["f"], np.sum(g*d), fd))
    rec.nt(p > 1)
    rec.label(c["f"])


@sub("C05", "differentiable_variant_same_values", case(max_logc=4), quick=150,
     rule="p > 1")
def _(c, rec):
    m = mat(c)
    k = cond(m)
    whole = m
    for n, f in FUNCS.items():
        m = whole
        if n == "expm" and np.linalg.norm(m) > 100:
            m = m/np.linalg.norm(m)
        close(sut(f, m, True), np.asarray(sut(f, m, False)), 1e-14*k+1e-12,
              "differentiable " + n)
        close(sut(f, m), np.asarray(sut(f, m, False)), 1e-14*k+1e-12,
              "default " + n)
    m = whole
    close(sut(L.powm, m, c["alpha"], True),
          np.asarray(sut(L.powm, m, c["alpha"])), 1e-12, "differentiable powm")
    x = gen.normal(c["key"], "x", m.shape, c["cplx"])
    close(sut(L.hermitian, x, True), np.asarray(sut(L.hermitian, x)), 1e-15,
          "differentiable hermitian part")
    rec.nt(c["p"] > 1)
    label(c, rec)


@sub("C05", "extreme_units", st.tuples(
    case(max_logc=3), st.sampled_from([-200, -100, -40, -20, 20, 40, 100,
                                       200])), quick=200,
     rule="p > 1, non-diagonal")
def _(c, rec):
    c, dec = c
    c = dict(c, cov=dict(c["cov"], logs=0))
    m = np.array(gen.cov(c["cov"], c["p"], c["cplx"]))
    k, n, ag = cond(m), c["p"], c["autograd"]
    f = 10.0**dec
    x = gen.layout(m*f, c["layout"])
    tol = 1e-12*k + 1e-11

    def judge(got, want, what):
        got = arr(got, m.shape, what)
        d = np.linalg.norm(got-want)/np.linalg.norm(want)
        need(d <= tol, lambda: "%s in units of 10^%d: relative error %.3g"
             % (what, dec, d))
    judge(np.asarray(sut(L.sqrtm, x, ag))/np.sqrt(f), ref(c, m, np.sqrt),
          "sqrtm")
    judge(np.asarray(sut(L.invsqrtm, x, ag))*np.sqrt(f),
          ref(c, m, lambda w: 1/np.sqrt(w)), "invsqrtm")
    judge(sut(L.logm, x, ag), ref(c, m, np.log) + dec*np.log(10)*np.eye(n),
          "logm")
    a = c["alpha"] if abs(c["alpha"]*dec) <= 200 else np.sign(c["alpha"])
    judge(np.asarray(sut(L.powm, x, a, ag))/f**a, ref(c, m, lambda w: w**a),
          "powm(%g)" % a)
    # exp(h + s I) = e^s exp(h), for any Hermitian h
    h = gen.normal(c["key"], "h", m.shape, c["cplx"])
    h = (h + h.conj().T)/np.sqrt(n)
    s = 2.5*dec
    e = np.asarray(sut(L.expm, gen.layout(h + s*np.eye(n), c["layout"]), ag))
    judge(e/np.exp(s), ref(c, h, np.exp), "expm")
    # whatever the eigenvalues: small ones as well as large ones
    w = 60*(2*gen.rng(c["key"], "w").random(n) - 1)
    e = np.asarray(sut(L.expm, np.diag(w).astype(m.dtype), ag))
    need(np.all(np.abs(np.diag(e) - np.exp(w)) <= 1e-10*np.exp(w)) and
         np.all(np.abs(e - np.diag(np.diag(e))) <= 1e-10*np.max(np.exp(w))),
         "exponential of a diagonal matrix")
    rec.nt(n > 1 and c["cov"]["kind"] not in ("ident", "diag"))
    label(c, rec)
    rec.label("10^%d" % dec)
