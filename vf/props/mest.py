"""Reference recursions of the M-estimators and shared generators
(C13-C18, C28)."""
import functools

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, stats

from robuststats.estimation import covariance as EC

from .. import gen


def H(a):
    return np.swapaxes(np.asarray(a), -1, -2).conj()


def quad(x, s):
    """x_n^H s^-1 x_n for every row"""
    x = np.asarray(x)
    return np.real(np.einsum("ni,in->n", x.conj(), np.linalg.solve(s, x.T)))


def scm(x):
    x = np.asarray(x)
    return x.T @ x.conj()/len(x)


@functools.lru_cache(None)
def huber_constants(q, p, cplx):
    """Threshold at the q-quantile of the Gaussian law of the quadratic form,
    scaling E[min(quadratic form, threshold)]/p (numerical integration)."""
    if q >= 1:
        return np.inf, 1.0
    law = stats.gamma(p) if cplx else stats.gamma(p/2, scale=2)
    lam = law.ppf(q)
    # E[min(Q, lam)] = integral of the survival function over [0, lam]
    v = integrate.quad(law.sf, 0, lam, epsabs=1e-13, epsrel=1e-12,
                       limit=200)[0]
    return lam, v/p


def weight(est, par, x, s):
    n, p = x.shape
    cplx = np.iscomplexobj(x)
    q = quad(x, s)
    if est == "tyler":
        return p/q
    if est == "student":
        return (par/2+p)/(par/2+q) if cplx else (par+p)/(par+q)
    lam, beta = huber_constants(par, p, cplx)
    with np.errstate(all="ignore"):
        return np.minimum(1, lam/q)/beta


def step(est, par, x, s):
    w = weight(est, par, x, s)
    return (x*w[:, None]).T @ x.conj()/len(x)


FUN = {"tyler": (EC.tyler_shape_matrix_fixedpoint,
                 EC.complex_tyler_shape_matrix_fixedpoint),
       "student": (EC.student_t_mle_fixed_point,
                   EC.complex_student_t_mle_fixed_point),
       "huber": (EC.huber_m_estimator_fixed_point,
                 EC.complex_huber_m_estimator_fixed_point)}
CLS = {"tyler": (EC.TylerShapeMatrix, EC.ComplexTylerShapeMatrix),
       "student": (EC.CenteredStudentMLE, EC.ComplexCenteredStudentMLE),
       "huber": (EC.HuberMEstimator, EC.ComplexHuberMEstimator)}


def call(est, par, x, **k):
    f = FUN[est][int(np.iscomplexobj(x))]
    return f(x, **k) if est == "tyler" else f(x, par, **k)


def make(est, par, cplx, **k):
    c = CLS[est][int(cplx)]
    if est == "student":
        k["df"] = par
    elif est == "huber":
        k["q"] = par
    return c(**k)


DF = st.one_of(st.sampled_from([.2, .5, 1, 2, 3, 5, 10, 50, 1000, 1e5]),
               st.integers(-14, 60).map(lambda i: 10**(i/20)))
Q = st.one_of(st.sampled_from([.05, .2, .5, .7, .9, .95, .99, .999, 1]),
              st.integers(10, 250).map(lambda i: i/250))


@st.composite
def case(draw, est=None, pmax=7, big=True, ratio=(2, 8), extra=3,
         tails=gen.TAILS, max_logc=2.0, max_scale=2.0, cplx=None,
         units=True, nbig=None):
    strat = gen.data_spec(1, pmax, ratio=ratio, extra=extra, tails=tails,
                          max_logc=max_logc, max_scale=max_scale, cplx=cplx,
                          nbig=nbig or (1500 if big else None),
                          units=(-12, -8, 8, 12) if units else ())
    if big:
        strat = st.one_of(strat, strat, strat, gen.data_spec(
            8, 16, pbig=32, ratio=(2, 3), extra=extra, tails=tails, max_logc=max_logc,
            max_scale=max_scale, cplx=cplx))
    c = draw(strat)
    c["est"] = est or draw(st.sampled_from(["tyler", "student", "huber"]))
    c["par"] = (draw(DF) if c["est"] == "student" else
                draw(Q) if c["est"] == "huber" else None)
    return c


def setup(c):
    x = gen.data(c)
    if np.ma.isMaskedArray(x):
        raise AssertionError
    return x


def start(c, kind, tag="init"):
    """A starting point of the iteration (None: the documented one)."""
    p = c["p"]
    if kind == "none":
        return None
    if kind == "eye":
        return np.eye(p, dtype=complex if c["cplx"] else float)
    if kind == "scaled":
        return 1e3*np.eye(p, dtype=complex if c["cplx"] else float)
    return gen.cov({"key": c["key"], "kind": "rand", "logc": 1.0,
                    "logs": 0.5}, p, c["cplx"], tag)


START = st.sampled_from(["none", "none", "eye", "scaled", "rand"])


def label(c, rec):
    gen.label_data(rec, c)
    rec.label(c["est"])


def white(s, a):
    """s^-1/2 a s^-1/2"""
    w, v = np.linalg.eigh((s+H(s))/2)
    r = (v/np.sqrt(w)) @ H(v)
    return r @ a @ r


def dist(a, ref, upto_scale=False):
    """|| ref^-1/2 a ref^-1/2 - I || / sqrt(p), up to scale if asked"""
    p = len(ref)
    m = white(ref, a)
    if upto_scale:
        m = m*p/np.trace(m).real
    return np.linalg.norm(m-np.eye(p))/np.sqrt(p)
