"""C07: Tyler costs."""
import autograd
import numpy as np
from hypothesis import strategies as st

from robuststats.models.cost import Tyler_cost_complex, Tyler_cost_real

from .. import gen
from ..core import META, arr, close, need, rejects, sub, sut

META["C07"] = {"assumptions": [
    "condition number of the shape matrix up to 1e6, no zero sample"]}


@st.composite
def case(draw, pmax=9, max_logc=4, max_scale=4):
    s = draw(gen.data_spec(1, pmax, ratio=(0, 6), extra=1, max_scale=3,
                           pbig=30, nbig=500))
    s["q"] = draw(gen.cov_spec(max_logc, max_scale))
    s["autograd"] = draw(st.booleans())
    s["real_on_complex"] = draw(st.booleans())
    s["logk"] = draw(st.integers(-6, 6))
    return s


def setup(c):
    x = gen.data(c)
    q = gen.cov(c["q"], c["p"], c["cplx"], "Q")
    f = Tyler_cost_complex if c["cplx"] else Tyler_cost_real
    return x, q, f


def ref(x, q):
    n, p = x.shape
    s = np.real(np.einsum("ni,in->n", x.conj(), np.linalg.solve(q, x.T)))
    return p*np.sum(np.log(s)) + n*np.linalg.slogdet(q)[1]


def mag(x, q):
    """Size of the terms that cancel in the cost."""
    n, p = x.shape
    s = np.real(np.einsum("ni,in->n", x.conj(), np.linalg.solve(q, x.T)))
    return p*np.sum(np.abs(np.log(s))) + n*np.abs(
        np.linalg.slogdet(q)[1]) + n*p


def label(c, rec):
    gen.label_data(rec, c)
    rec.label("autograd" if c["autograd"] else "numpy")


@sub("C07", "closed_form", case(), quick=400, rule="p > 1, n > 1")
def _(c, rec):
    x, q, f = setup(c)
    r, m = ref(x, q), mag(x, q)
    v = arr(sut(f, x, q, c["autograd"]), (), "cost", cplx=False)
    need(abs(v - r) <= 1e-9*m, lambda: "cost %.12g, closed form %.12g" % (v, r))
    v2 = arr(sut(f, x, q), (), "cost", cplx=False)
    need(abs(v2 - r) <= 1e-9*m, lambda: "cost %.12g, closed form %.12g" % (
        v2, r))
    if not c["cplx"] and c["real_on_complex"]:
        # the complex cost restricted to real data is the real cost
        v = arr(sut(Tyler_cost_complex, x, q, c["autograd"]), (),
                "complex cost of real data", cplx=False)
        need(abs(v - r) <= 1e-9*m, "complex cost differs on real data")
    rec.nt(c["p"] > 1 and c["n"] > 1)
    label(c, rec)


@sub("C07", "invariances", case(), quick=250, rule="p > 1, n > 1")
def _(c, rec):
    x, q, f = setup(c)
    n, p = x.shape
    ag = c["autograd"]
    v, m = sut(f, x, q, ag), mag(x, q)
    k = 10.0**(c["logk"]/2)
    tol = 1e-9*(m + n*p*20)
    need(abs(sut(f, x, k*q, ag) - v) <= tol,
         "cost changes with the scale of the shape matrix")
    g = gen.rng(c["key"], "tau")
    a = 10.0**(4*g.random(n)-2)
    if c["cplx"]:
        ph = a*np.exp(2j*np.pi*g.random(n))
    else:
        ph = a*np.where(g.random(n) < .5, -1, 1)
    need(abs(sut(f, x*ph[:, None], q, ag) - v - 2*p*np.sum(np.log(a))) <= tol,
         "rescaling samples does not add the constant 2 p sum log|a|")
    o = g.permutation(n)
    need(abs(sut(f, x[o], q, ag) - v) <= tol,
         "cost depends on the order of the samples")
    t = gen.mixing(c["key"], "T", p, c["cplx"])
    need(abs(sut(f, x @ t.T, t @ q @ t.conj().T, ag) - v
             - 2*n*np.linalg.slogdet(t)[1]) <= 1e3*tol,
         "cost of transformed data and shape does not differ by the "
         "log-Jacobian")
    rec.nt(p > 1 and n > 1)
    label(c, rec)


@sub("C07", "gradient_is_the_derivative", case(5, 2, 1), quick=200,
     rule="p > 1, n > 1")
def _(c, rec):
    x, q, f = setup(c)
    n, p = x.shape
    w = np.linalg.eigvalsh(q)
    d = gen.normal(c["key"], "D", (p, p), c["cplx"])
    d = d + d.conj().T
    d *= w[0]/np.linalg.norm(d)
    g = arr(sut(autograd.grad(lambda m: f(x, m, True)), q), (p, p),
            "gradient")
    got = np.real(np.sum(g*d))
    h = 1e-3

    def v(t):
        return float(sut(f, x, q + t*d))
    fd = (8*(v(h)-v(-h))-(v(2*h)-v(-2*h)))/(12*h)
    iq = np.linalg.inv(q)
    s = np.real(np.einsum("ni,ij,nj->n", x.conj(), iq, x))
    ex = n*iq - p*iq @ (x.T/s) @ x.conj() @ iq
    ex = np.real(np.trace(ex @ d))
    tol = 1e-6*(n*p + abs(ex)) + 1e-9*mag(x, q)
    need(abs(got - ex) <= tol, lambda: "automatic gradient along D %.10g, "
         "derivative %.10g" % (got, ex))
    need(abs(fd - ex) <= tol + 1e-8*mag(x, q)/h*1e-3, lambda: "finite "
         "difference %.10g, derivative %.10g" % (fd, ex))
    rec.nt(p > 1 and n > 1)
    label(c, rec)
    rec.label("repeated eigenvalues" if p > 1 and np.min(np.diff(w))
              < 1e-9*w[-1] else "simple spectrum")


@st.composite
def bad(draw):
    p = draw(st.integers(1, 6))
    r = draw(st.integers(1, 6).filter(lambda i: True))
    if r == p:
        r = p + 1
    return {"p": p, "r": r, "n": draw(st.integers(1, 8)),
            "key": draw(gen.KEY), "cplx": draw(st.booleans()),
            "autograd": draw(st.booleans())}


@sub("C07", "incompatible_sizes_refused", bad(), quick=100, rule="every case")
def _(c, rec):
    x = gen.normal(c["key"], "x", (c["n"], c["p"]), c["cplx"])
    q = np.eye(c["r"], dtype=x.dtype)
    f = Tyler_cost_complex if c["cplx"] else Tyler_cost_real
    rejects(f, x, q, c["autograd"], what="cost of %d features with a %d x %d "
            "matrix" % (c["p"], c["r"], c["r"]))
    rec.nt()
    rec.label("complex" if c["cplx"] else "real")


@st.composite
def large(draw):
    return {"p": draw(st.one_of(st.integers(1, 9), st.integers(20, 120))), "n": draw(st.integers(1, 8)),
            "key": draw(gen.KEY), "cplx": draw(st.booleans()),
            "logs": draw(st.integers(-5, 5)), "autograd": draw(st.booleans()),
            "unit": draw(st.sampled_from([0, 0, -120, -60, 60, 120]))}


@sub("C07", "large_dimension_and_scale", large(), quick=80,
     rule="log-determinant beyond the range of the determinant")
def _(c, rec):
    p, n = c["p"], c["n"]
    x = 10.0**c["unit"]*gen.normal(c["key"], "x", (n, p), c["cplx"])
    q = gen.cov({"key": c["key"], "kind": "toeplitz", "logc": .5,
                 "logs": c["logs"]}, p, c["cplx"])
    f = Tyler_cost_complex if c["cplx"] else Tyler_cost_real
    v = arr(sut(f, x, q, c["autograd"]), (), "cost", cplx=False)
    need(abs(v - ref(x, q)) <= 1e-9*mag(x, q), "cost %.12g, closed form %.12g"
         % (v, ref(x, q)))
    rec.nt(abs(np.linalg.slogdet(q)[1]) > 700)
