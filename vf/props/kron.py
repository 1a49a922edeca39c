"""Shared pieces of the Kronecker estimation checks (C18, C22, C23)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from . import mest
from .mest import H


@st.composite
def case(draw, cplx=None, amin=1, amax=4, nmin=2, nmax=6, tails=gen.TAILS,
         nbig=300, units=()):
    a, b = draw(st.integers(amin, amax)), draw(st.integers(amin, amax))
    return {"a": a, "b": b, "p": a*b,
            "n": draw(gen.size(nmin*a*b+3, nmax*a*b+6,
                               max(nmax*a*b+6, nbig), 11)),
            "key": draw(gen.KEY),
            "cA": draw(gen.cov_spec(1.5, 1, units=units)),
            "cB": draw(gen.cov_spec(1.5, 1, units=units)),
            "tail": draw(st.sampled_from(tails)),
            "layout": draw(st.sampled_from(gen.LAYOUTS)),
            "cplx": draw(st.booleans()) if cplx is None else cplx}


def factors(c, tag="", unitdet=False):
    A = gen.cov(c["cA"], c["a"], c["cplx"], "A"+tag)
    B = gen.cov(c["cB"], c["b"], c["cplx"], "B"+tag)
    if unitdet:
        A = A/np.exp(np.linalg.slogdet(A)[1]/c["a"])
    return A, B


def data(c, tag="x", n=None):
    """Rows vec(B^1/2 G A^T/2) sqrt(tau): covariance kron(A, B)."""
    n = n or c["n"]
    A, B = factors(c)
    s = np.kron(A, B)
    w, v = np.linalg.eigh(s)
    g = gen.normal(c["key"], tag, (n, c["p"]), c["cplx"])
    x = g @ ((v*np.sqrt(w)) @ H(v)).T
    r = gen.rng(c["key"], tag+"tau")
    t = c["tail"]
    tau = np.ones(n)
    if t == "student":
        tau = 3/r.chisquare(3, n)
    elif t == "lognormal":
        tau = np.exp(1.5*r.standard_normal(n))
    elif t == "outliers":
        tau = np.where(r.random(n) < .15, 1e4, 1.)
    x = x*np.sqrt(tau)[:, None]
    if t == "ties":
        x = gen.ties(x)
    return gen.layout(x, c["layout"])


def cost(x, A, B):
    """Tyler cost of kron(A, B)."""
    s = np.kron(A, B)
    n, p = x.shape
    return p*np.sum(np.log(mest.quad(x, s))) + n*np.linalg.slogdet(s)[1]


def mag(x, A, B):
    s = np.kron(A, B)
    n, p = x.shape
    return p*np.sum(np.abs(np.log(mest.quad(x, s)))) + n*p + n*abs(
        np.linalg.slogdet(s)[1])


def partial(x, s, w, A, B):
    """(1/n) sum_n w_n times x_n x_n^H contracted with the inverse of the
    other factor: (M_A, M_B) with A = M_A/b, B = M_B/a at a stationary point
    of an elliptical likelihood with weights w."""
    a, b = len(A), len(B)
    r = (np.asarray(x)*w[:, None]).T @ np.asarray(x).conj()/len(x)
    r = r.reshape(a, b, a, b)                  # kron(A, B)[i b+k, j b+l]
    mA = np.einsum("ikjl,lk->ij", r, np.linalg.inv(B))
    mB = np.einsum("ikjl,ji->kl", r, np.linalg.inv(A))
    return mA, mB


def label(c, rec):
    rec.label("a=%d,b=%d" % (c["a"], c["b"]), "tail=" + c["tail"],
              "complex" if c["cplx"] else "real", "layout=" + c["layout"])
