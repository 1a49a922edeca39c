"""C32: estimators agree where their models coincide."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2

import robuststats.estimation.base as B
import robuststats.estimation.covariance as C
import robuststats.estimation.structured as S

from .. import gen
from ..core import META, arr, need, sub, sut
from . import kron, mest
from .mest import H

META["C32"] = {"assumptions": [
    "more than twice as many samples as dimensions, in general position, "
    "without ties or corrupted samples of huge scale",
    "single iterations are compared to 1e-8; converged estimates to 1e-5 "
    "(fixed points) and 3e-4 (gradient solvers), whitened"]}


def whitened(a, b, tol, what, shape=False):
    """relative difference in the coordinates where b is the identity"""
    w, v = np.linalg.eigh(np.asarray(b))
    need(w.min() > 0, what + ": not positive definite")
    i = (v/np.sqrt(w)) @ H(v)
    d = i @ a @ i
    if shape:
        d = d/(np.trace(d).real/len(d))
    e = np.max(np.abs(d - np.eye(len(d))))
    need(e <= tol, lambda: "%s: whitened difference %.3g" % (what, e))


def trace1(a):
    return a/(np.trace(a).real/len(a))


EST = ["student", "huber", "tyler", "empirical"]


def run(est, x, cplx, par, k, init=None, cls=False, tol=-1.):
    """-> estimate after k iterations"""
    x = np.asarray(x)
    kw = {} if init is None else {"init": init}
    if cls and est != "empirical":
        make = {"student": (C.ComplexCenteredStudentMLE if cplx else
                            C.CenteredStudentMLE),
                "huber": C.ComplexHuberMEstimator if cplx else
                C.HuberMEstimator,
                "tyler": C.ComplexTylerShapeMatrix if cplx else
                C.TylerShapeMatrix}[est]
        e = make(*([] if est == "tyler" else [par]), tol=tol, iter_max=k)
        return arr(sut(e.fit, x, **kw).covariance_, (x.shape[1],)*2, est,
                   cplx=cplx)
    if est == "empirical":
        if cls:
            e = B.ComplexEmpiricalCovariance(assume_centered=True) if cplx \
                else B.RealEmpiricalCovariance(assume_centered=True)
            return sut(e.fit, x).covariance_
        f = B.complex_empirical_covariance if cplx else C.empirical_covariance
        return sut(f, x, assume_centered=True)
    f = {"student": (C.complex_student_t_mle_fixed_point if cplx else
                     C.student_t_mle_fixed_point),
         "huber": (C.complex_huber_m_estimator_fixed_point if cplx else
                   C.huber_m_estimator_fixed_point),
         "tyler": (C.complex_tyler_shape_matrix_fixedpoint if cplx else
                   C.tyler_shape_matrix_fixedpoint)}[est]
    args = [x] if est == "tyler" else [x, par]
    r = sut(f, *args, tol=tol, iter_max=k, **kw)
    return arr(r[0], (x.shape[1],)*2, est, cplx=cplx)


@st.composite
def case(draw, cplx=None, ests=EST, pmax=6):
    c = draw(gen.data_spec(1, pmax, (2, 6), cplx=cplx, max_logc=2.,
                           max_scale=2., pbig=15, nbig=400,
                           tails=["gauss", "student", "lognormal"]))
    c["est"] = draw(st.sampled_from(ests))
    c["df"] = draw(st.sampled_from([.5, 1., 2.1, 3., 10., 200.]))
    c["q"] = draw(st.sampled_from([.1, .5, .8, .9, .99]))
    c["k"] = draw(st.integers(1, 12))
    c["class"] = draw(st.booleans())
    return c


def par(c):
    return c["df"] if c["est"] == "student" else c["q"]


def iterations_close(a, b, est, what):
    if est == "tyler":       # scale is a convention
        a, b = trace1(a), trace1(b)
    whitened(a, b, 1e-7, what)


@sub("C32", "complex_data_as_circular_real_data", case(cplx=True), quick=400,
     rule="p > 1, more than one iteration")
def _(c, rec):
    x = np.asarray(gen.data(c, lay=False))
    z = run(c["est"], x, True, par(c), c["k"], cls=c["class"])
    # real and imaginary parts, and those of the data turned by a right angle
    r = np.concatenate([np.concatenate([x.real, x.imag], 1),
                        np.concatenate([-x.imag, x.real], 1)])
    s = run(c["est"], r, False, par(c), c["k"], cls=c["class"])
    need(not np.iscomplexobj(s), "real data, complex estimate")
    iterations_close(s, .5*np.block([[z.real, -z.imag], [z.imag, z.real]]),
                     c["est"], c["est"] + " of the circular real data")
    rec.nt(c["p"] > 1 and c["k"] > 1)
    rec.label(c["est"])


@sub("C32", "real_data_as_complex_data",
     case(cplx=False, ests=["student", "tyler", "empirical"]), quick=250,
     rule="p > 1, more than one iteration")
def _(c, rec):
    x = np.asarray(gen.data(c, lay=False))
    p = par(c)
    z = run(c["est"], x.astype(complex), True, 2*p if c["est"] == "student"
            else p, c["k"])
    s = run(c["est"], x, False, p, c["k"])
    iterations_close(z, s, c["est"], c["est"] + " of real data as complex")
    rec.nt(c["p"] > 1 and c["k"] > 1)
    rec.label(c["est"])


@sub("C32", "conjugate_turned_and_repeated_data", case(), quick=400,
     rule="p > 1")
def _(c, rec):
    x = np.asarray(gen.data(c, lay=False))
    a = run(c["est"], x, c["cplx"], par(c), c["k"], cls=c["class"])
    g = gen.rng(c["key"], "perm")
    for what, y, f in (
            ("conjugate data", x.conj(), np.conj),
            ("data each sample of which changes sign or phase",
             x*(np.exp(2j*np.pi*g.random((len(x), 1))) if c["cplx"] else
                g.choice([-1., 1.], (len(x), 1))), lambda s: s),
            ("repeated data", np.concatenate([x, x, x]), lambda s: s),
            ("shuffled data", x[g.permutation(len(x))], lambda s: s)):
        b = run(c["est"], y, c["cplx"], par(c), c["k"], cls=c["class"])
        iterations_close(b, f(a), c["est"], "%s of %s" % (c["est"], what))
    rec.nt(c["p"] > 1)
    rec.label(c["est"], "complex" if c["cplx"] else "real")


@sub("C32", "tyler_is_the_limit_of_student_and_huber",
     case(ests=["student", "huber"]), quick=300, rule="p > 1")
def _(c, rec):
    x = np.asarray(gen.data(c, lay=False))
    p, m = c["p"], 2 if c["cplx"] else 1
    init = trace1(gen.cov(dict(c["cov"], key=c["key"] + 1), p, c["cplx"]))
    t = run("tyler", x, c["cplx"], None, c["k"], init=init)
    par = 1e-13 if c["est"] == "student" else 1e-14
    s = run(c["est"], x, c["cplx"], par, c["k"], init=init, cls=c["class"])
    # no sample may be below the threshold (or the degrees of freedom)
    low = par if c["est"] == "student" else chi2.ppf(par, m*p)/m
    q = mest.quad(x, s)
    s0 = min(mest.quad(x, init).min(), q.min(), (p*q/q.max()).min())
    if s0 < 1e3*max(low, 1e-5 if c["est"] == "student" else 0):
        rec.label("skipped")
        return
    iterations_close(trace1(s), trace1(t), "tyler",
                     "shape of the %s limit" % c["est"])
    rec.nt(p > 1)
    rec.label(c["est"], "complex" if c["cplx"] else "real")


@st.composite
def kcase(draw, cplx=None, one=False):
    c = draw(kron.case(cplx=cplx, amax=3, nbig=100,
                       tails=["gauss", "student"]))
    if one:
        c["a" if draw(st.booleans()) else "b"] = 1
        c["p"] = c["a"]*c["b"]
    c["df"] = draw(st.sampled_from([1., 2.1, 3., 10.]))
    c["class"] = draw(st.booleans())
    return c


def mm(c, x, a, b):
    if c["class"] and c["cplx"]:
        e = sut(S.KroneckerEllipticalMM(a, b, tol=1e-10, iter_max=3000).fit,
                x)
        return e.covariance_
    r = sut(S.estimation_cov_kronecker_MM, x, a, b, tol=1e-10, iter_max=3000)
    return np.kron(r[0], r[1])


def swap(x, a, b):
    return x.reshape(-1, a, b).transpose(0, 2, 1).reshape(-1, a*b)


def swapped(s, a, b):
    return s.reshape(a, b, a, b).transpose(1, 0, 3, 2).reshape(a*b, a*b)


@sub("C32", "kronecker_with_one_factor_is_tyler", kcase(one=True), quick=120,
     rule="the other factor of size > 1")
def _(c, rec):
    x = np.array(kron.data(c))
    s = mm(c, x, c["a"], c["b"])
    t = run("tyler", x, c["cplx"], None, 5000, tol=1e-12)
    whitened(s, t, 1e-5, "Kronecker MM with a factor of size one", True)
    rec.nt(c["p"] > 1)


@sub("C32", "kronecker_student_with_one_factor_is_student",
     kcase(cplx=True, one=True), quick=60,
     rule="the other factor of size > 1")
def _(c, rec):
    x = np.array(kron.data(c))
    s = sut(S.KroneckerStudent(c["a"], c["b"], c["df"]).fit, x).covariance_
    t = run("student", x, True, c["df"], 5000, tol=1e-12)
    whitened(s, t, 3e-4, "Kronecker Student with a factor of size one")
    rec.nt(c["p"] > 1)


@sub("C32", "exchanged_factors", kcase(), quick=80,
     rule="both factors of size > 1")
def _(c, rec):
    a, b = c["a"], c["b"]
    x = np.array(kron.data(c))
    y = swap(x, a, b)
    whitened(mm(c, y, b, a), swapped(mm(c, x, a, b), a, b), 1e-5,
             "Kronecker MM of the transposed samples", True)
    if c["cplx"]:
        s, t = (sut(S.KroneckerStudent(i, j, c["df"]).fit, v).covariance_
                for i, j, v in ((a, b, x), (b, a, y)))
        whitened(t, swapped(s, a, b), 3e-4,
                 "Kronecker Student of the transposed samples")
        s = sut(S.KroneckerStudent(a, b, c["df"]).fit, x.conj()).covariance_
        whitened(swapped(s.conj(), a, b), t, 3e-4,
                 "Kronecker Student of the conjugate samples")
    rec.nt(a > 1 and b > 1)
    rec.label("complex" if c["cplx"] else "real")
