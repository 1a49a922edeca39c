"""Generators: JSON-able case fragments and the arrays they stand for.

Small integers, flags and scales are drawn by Hypothesis directly.  Bulk
numeric content is a counter-based expansion (Philox) of a Hypothesis-drawn
64-bit key, so that it replays from the case alone and the case still shrinks
(dimensions, options, key -> 0).
"""
import zlib

import numpy as np
from hypothesis import strategies as st

KEY = st.integers(0, 2**48 - 1)


def rng(key, tag=""):
    return np.random.Generator(np.random.Philox(
        key=[int(key), zlib.crc32(str(tag).encode())]))


def normal(key, tag, shape, cplx=False):
    g = rng(key, tag)
    if cplx:
        return (g.standard_normal(shape) + 1j*g.standard_normal(shape)) \
            / np.sqrt(2)
    return g.standard_normal(shape)


def unitary(key, tag, p, cplx=False, k=None):
    shape = (p, p) if k is None else (k, p, p)
    a = normal(key, tag, shape, cplx)
    q, r = np.linalg.qr(a)
    d = np.diagonal(r, axis1=-2, axis2=-1)
    ph = np.where(np.abs(d) > 0, d / np.where(np.abs(d) > 0, np.abs(d), 1), 1)
    return q * ph[..., None, :]


COV_KINDS = ["rand", "ident", "diag", "toeplitz", "ill", "spiked", "block"]


def cov_spec(max_logc=3.0, max_scale=3.0, kinds=COV_KINDS, units=()):
    """`units`: further powers of ten of the scale, drawn a third of the time
    (covariances in very small or very large units)."""
    logs = st.integers(-int(max_scale*2), int(max_scale*2)).map(
        lambda i: i/2)
    if units:
        logs = st.one_of(logs, logs, st.sampled_from(sorted(units)))
    return st.fixed_dictionaries({
        "key": KEY, "kind": st.sampled_from(kinds),
        "logc": st.integers(0, int(max_logc*4)).map(lambda i: i/4),
        "logs": logs})


UNITS = (-16, -14, -12, -10, -8, 8, 10, 12, 14, 16)


def cov(spec, p, cplx, tag="cov"):
    """Symmetric / Hermitian positive definite p x p matrix, condition number
    about 10**logc."""
    k, c, s = spec["key"], 10.0**spec["logc"], 10.0**spec["logs"]
    kind = spec["kind"]
    ty = complex if cplx else float
    if kind == "ident":
        return s*np.eye(p, dtype=ty)
    if kind == "toeplitz":
        rho = 0.9*np.tanh(spec["logc"]/2+0.1)
        if cplx:
            rho = rho*np.exp(1j*(0.3 + k % 7))
        i = np.arange(p)
        m = np.abs(rho)**np.abs(i[:, None]-i[None]) * np.exp(
            1j*np.angle(rho)*(i[:, None]-i[None]))
        m = m if cplx else (np.abs(rho)**np.abs(i[:, None]-i[None]))
        return s*m.astype(ty)
    g = rng(k, tag+"eig")
    if kind == "ill":
        w = np.logspace(0, -spec["logc"], p)
    elif kind == "spiked":
        w = np.ones(p)
        w[0] = c
    else:
        w = 10.0**(-spec["logc"]*g.random(p))
    if kind == "diag":
        return s*np.diag(w).astype(ty)
    if kind == "block" and p >= 2:
        h = p//2
        q = np.zeros((p, p), dtype=ty)
        q[:h, :h] = unitary(k, tag+"q1", h, cplx)
        q[h:, h:] = unitary(k, tag+"q2", p-h, cplx)
    else:
        q = unitary(k, tag+"q", p, cplx)
    m = s*(q*w) @ q.conj().T
    return (m + m.conj().T)/2


def size(lo, hi, big, often=7):
    """lo..hi, and one time in `often`+1 up to `big`"""
    return st.one_of(*[st.integers(lo, hi)]*often + [st.integers(hi, big)])


LAYOUTS = ["C", "F", "strided", "reversed", "readonly"]
# complex data whose values are all real, or all imaginary, are still complex
VALUES = ["any"]*8 + ["real", "imaginary"]
TAILS = ["gauss", "gauss", "student", "lognormal", "outliers", "ties"]


def ties(x):
    """some samples occur twice, and an entry is exactly zero (samples are
    still in general position enough for the M-estimators)"""
    k = max(1, len(x)//8)
    if len(x) > 2*x.shape[1] + 2:
        x[len(x)-k:] = x[:k]
        if x.shape[1] > 1:
            x[k, 0] = 0
    return x


def layout(a, kind):
    """Same values, different memory layout."""
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.zeros(tuple(2*n for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "reversed":
        b = np.ascontiguousarray(a[::-1])
        return b[::-1]
    if kind == "readonly":
        b = np.ascontiguousarray(a).copy()
        b.setflags(write=False)
        return b
    return np.ascontiguousarray(a)


@st.composite
def data_spec(draw, pmin=1, pmax=6, ratio=(2, 8), cplx=None, max_logc=2.0,
              max_scale=2.0, nmax=None, tails=TAILS, extra=3, pbig=None,
              nbig=None, units=()):
    """A sample matrix: n x p rows, mixed by a covariance, with texture.
    pbig, nbig: dimension and number of samples of the rare large cases."""
    p = draw(size(pmin, pmax, pbig, 9) if pbig else st.integers(pmin, pmax))
    lo, hi = ratio[0]*p + extra, ratio[1]*p + extra
    n = draw(size(lo, hi, max(nbig, hi), 9) if nbig else st.integers(lo, hi))
    if nmax:
        n = min(n, nmax)
    c = {"p": p, "n": n, "key": draw(KEY),
         "cov": draw(cov_spec(max_logc, max_scale, units=units)),
         "tail": draw(st.sampled_from(tails)),
         "layout": draw(st.sampled_from(LAYOUTS)),
         "cplx": draw(st.booleans()) if cplx is None else cplx}
    if c["cplx"]:
        c["values"] = draw(st.sampled_from(VALUES))
    return c


def data(spec, tag="x", lay=True):
    n, p, key = spec["n"], spec["p"], spec["key"]
    g = normal(key, tag, (n, p), spec["cplx"])
    c = cov(spec["cov"], p, spec["cplx"])
    w, v = np.linalg.eigh(c)
    x = g @ ((v*np.sqrt(w)) @ v.conj().T).T
    if spec["cplx"] and spec.get("values", "any") != "any":
        x = np.sqrt(2)*x.real*(1j if spec["values"] == "imaginary" else 1) + 0j
    r = rng(key, tag+"tau")
    t = spec["tail"]
    if t == "student":
        tau = 3.0/r.chisquare(3.0, n)
    elif t == "lognormal":
        tau = np.exp(1.5*r.standard_normal(n))
    elif t == "outliers":
        tau = np.where(r.random(n) < 0.15, 1e4, 1.0)
    else:
        tau = np.ones(n)
    x = x*np.sqrt(tau)[:, None]
    if t == "ties":
        x = ties(x)
    return layout(x, spec["layout"]) if lay else x


def mixing(key, tag, p, cplx, logc=1.0):
    """Invertible p x p matrix with condition number <= 10**logc."""
    u, v = unitary(key, tag+"u", p, cplx), unitary(key, tag+"v", p, cplx)
    s = 10.0**(logc*(rng(key, tag+"s").random(p)-0.5))
    return (u*s) @ v


def label_data(rec, spec):
    rec.label("p=%d" % spec["p"], "tail=" + spec["tail"],
              "complex" if spec["cplx"] else "real",
              "values=" + spec.get("values", "any"),
              "layout=" + spec["layout"], "cov=" + spec["cov"]["kind"])
