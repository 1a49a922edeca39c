"""Shared pieces of the manifold checks (C08, C09, C11)."""
import numpy as np
import scipy.linalg as sla

from .. import gen
from ..core import arr, herm, need


def H(a):
    return np.swapaxes(np.asarray(a), -1, -2).conj()


def sq(x):
    w, v = np.linalg.eigh(x)
    return (v*np.sqrt(w)[..., None, :]) @ H(v)


def points(key, tag, n, k, logc, scale, unitdet=False):
    """k x n x n Hermitian positive definite matrices."""
    u = gen.unitary(key, tag+"u", n, True, k)
    w = 10.0**(logc*(gen.rng(key, tag+"w").random((k, n))-.5))
    if unitdet:
        w = w/np.exp(np.mean(np.log(w), axis=1, keepdims=True))
    else:
        w = w*scale
    m = (u*w[:, None, :]) @ H(u)
    return (m+H(m))/2


def tangents(key, tag, x, size=1.0, traceless=False):
    """Hermitian u with ||x^-1/2 u x^-1/2||_F = size for each slice."""
    h = gen.normal(key, tag, x.shape, True)
    h = h + H(h)
    n = x.shape[-1]
    if traceless:
        t = np.trace(h, axis1=-2, axis2=-1)/n
        h = h - t[..., None, None]*np.eye(n)
    nr = np.linalg.norm(h, axis=(-2, -1), keepdims=True)
    h = size*h/np.where(nr > 0, nr, 1)
    r = sq(x)
    u = r @ h @ r
    return (u+H(u))/2


def inner(x, u, v):
    a, b = np.linalg.solve(x, u), np.linalg.solve(x, v)
    return np.sum(np.real(np.einsum("...ij,...ji->...", a, b)))


def exp(x, u):
    return np.array([a @ sla.expm(np.linalg.solve(a, b))
                     for a, b in zip(x, u)])


def log(x, y):
    out = []
    for a, b in zip(x, y):
        w, v = sla.eigh(b, a)              # b v = w a v,  v^H a v = I
        av = a @ v
        out.append((av*np.log(w)) @ av.conj().T)
    return np.array(out)


def dist2(x, y):
    return sum(np.sum(np.log(sla.eigh(b, a, eigvals_only=True))**2)
               for a, b in zip(x, y))


def transp(x, y, d):
    out = []
    for a, b, c in zip(x, y, d):
        r = sq(a)
        ri = np.linalg.inv(r)
        e = r @ sq(ri @ b @ ri) @ ri       # (b a^-1)^(1/2)
        out.append(e @ c @ e.conj().T)
    return np.array(out)


def squeeze(a, k):
    """A stack as the manifold wants it (no stack axis when k = 1)."""
    return a[0] if k == 1 else a


def stack(a, k, n, what, **kw):
    a = arr(a, (n, n) if k == 1 else (k, n, n), what, **kw)
    return a[None] if k == 1 else a


def scaled(x, u):
    """x^-1/2 u x^-1/2"""
    ri = np.linalg.inv(sq(x))
    return ri @ u @ ri


def close_at(x, a, b, tol, what, floor=0.0):
    """Compare tangent vectors or points in coordinates whitened at x."""
    d = np.linalg.norm(scaled(x, np.asarray(a)-b))
    s = max(np.linalg.norm(scaled(x, b)), floor)
    need(d <= tol*s, lambda: "%s: relative error %.3g > %.3g\n got %s\n "
         "expected %s" % (what, d/max(s, 1e-300), tol, a, b))


def pd(a, what):
    herm(a, 1e-9, what)
    w = np.linalg.eigvalsh(a)
    need(np.all(w > 0), lambda: "%s is not positive definite: %s" % (what, w))


def generic(x, what, traceless=False):
    """k x n x n random Hermitian matrices (n > 1): off-diagonal entries and
    their imaginary parts, eigenvalues and slices all differ"""
    sc = np.max(np.abs(x))
    off = x[:, ~np.eye(x.shape[-1], dtype=bool)]
    need(np.all(np.abs(off) > 1e-13*sc) and
         np.all(np.abs(off.imag) > 1e-13*sc), what + " has null or real "
         "off-diagonal entries")
    w = np.linalg.eigvalsh(x)
    need(np.all(w[:, -1]-w[:, 0] > 1e-12*sc), what + " is a multiple of the "
         "identity")
    if len(x) > 1:
        # the matrices of a stack share neither eigenvalues nor eigenvectors
        m = np.max(np.abs(w), axis=1)[:, None]
        w, x = w/m, x/m[..., None]
        i, j = np.triu_indices(len(x), 1)
        # (with trace zero and n = 2, all spectra are the same up to scale)
        need(traceless and x.shape[-1] == 2 or
             np.all(np.max(np.abs(w[i]-w[j]), axis=1) > 1e-11),
             what + ": same eigenvalues in a stack")
        need(np.all(np.max(np.abs(x[i] @ x[j] - x[j] @ x[i]), axis=(1, 2))
                    > 1e-11), what + ": same eigenvectors in a stack")


# ---------------------------------------------------- small steps and vectors
STEPS = [1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]
FACTORS = [1e-9, 1e-7, 1e-5, 1e-3, 1e3, 1e6]


def near(x, t, u):
    """x^1/2 exp(t x^-1/2 u x^-1/2) x^1/2, in whitened coordinates accurate
    to rounding whatever t"""
    r = sq(x)
    w, v = np.linalg.eigh(t*scaled(x, u))
    m = r @ ((v*np.exp(w)[..., None, :]) @ H(v)) @ r
    return (m+H(m))/2


def whitened(x, a, b, tol, what):
    """absolute difference in coordinates whitened at x"""
    d = np.max(np.linalg.norm(scaled(x, np.asarray(a)-b), axis=(-2, -1)))
    need(d <= tol, lambda: "%s: error %.3g > %.3g" % (what, d, tol))


def homogeneous(f, u, t, tol, what):
    """f(t u) = t f(u) for a linear f"""
    a, b = np.asarray(f(t*u)), np.asarray(f(u))
    d, s = np.max(np.abs(a-t*b)), t*np.max(np.abs(b))
    need(d <= tol*s, lambda: "%s of a vector of relative size %g: relative "
         "error %.3g > %.3g" % (what, t, d/s if s else 0, tol))


# ------------------------------------------- far points and long vectors
SHIFTS = [-60, -30, -10, 0, 10, 30, 60]
DECADES = [-20, -10, -4, 0, 4, 10, 20]


def relative_at(x, a, b, tol, what):
    """slice by slice, relative difference in coordinates whitened at x"""
    d = np.linalg.norm(scaled(x, np.asarray(a)-b), axis=(-2, -1))
    s = np.linalg.norm(scaled(x, b), axis=(-2, -1))
    need(np.all(d <= tol*s), lambda: "%s: relative error %s > %.3g" % (
        what, d/s, tol))
