"""C12: complex empirical covariance and inherited services."""
import numpy as np
from hypothesis import strategies as st

from robuststats.estimation.base import (
    ComplexEmpiricalCovariance, RealEmpiricalCovariance,
    complex_empirical_covariance)
from robuststats.estimation import covariance as EC

from .. import gen
from ..core import META, arr, close, herm, need, posdef, sub, sut

META["C12"] = {"assumptions": [
    "covariances of condition number up to 1e4; the pseudo-inverse is checked "
    "against the inverse when there are more samples than features"]}


@st.composite
def case(draw, cplx=True, rmin=0):
    s = draw(st.one_of(
        gen.data_spec(1, 7, ratio=(rmin, 6), extra=2, max_logc=3, cplx=cplx,
                      nbig=2000, units=(-12, -8, 8, 12)),
        gen.data_spec(1, 14, ratio=(rmin, 3), extra=2, max_logc=2, pbig=40,
                      cplx=cplx, units=(-12, -8, 8, 12))))
    s["mean"] = draw(st.sampled_from([0, 0, 1, 10]))
    s["centered"] = draw(st.booleans())
    s["store"] = draw(st.booleans())
    s["m"] = draw(st.integers(1, 9))
    s["dtype"] = draw(st.sampled_from(["full", "full", "half", "int"]))
    return s


def data(c, tag="x"):
    x = gen.data(c, tag, lay=False)
    sd = np.sqrt(np.mean(np.abs(x)**2))
    x = x + c["mean"]*sd*gen.normal(c["key"], "mean", (c["p"],), c["cplx"])
    if c["dtype"] == "half":
        x = x.astype(np.complex64 if c["cplx"] else np.float32)
    elif c["dtype"] == "int":
        x = np.round(20*x/sd)          # integer valued, still complex
    return gen.layout(x, c["layout"])


def ref(x, centered):
    x = np.asarray(x, dtype=complex if np.iscomplexobj(x) else float)
    m = np.zeros(x.shape[1], dtype=x.dtype) if centered else x.mean(0)
    d = x - m
    c = np.zeros((x.shape[1],)*2, dtype=x.dtype)
    for r in d:
        c = c + np.outer(r, r.conj())
    return m, c/len(x)


def label(c, rec):
    gen.label_data(rec, c)
    rec.label("assume_centered" if c["centered"] else "sample mean",
              "dtype=" + c["dtype"], "n<=p" if c["n"] <= c["p"] else "n>p")


@sub("C12", "function_is_average_outer_product", case(), quick=500,
     rule="p > 1 and n > 1")
def _(c, rec):
    x = data(c)
    p = c["p"]
    tol = 1e-5 if c["dtype"] == "half" else 1e-11
    m, r = ref(x, c["centered"])
    s = sut(complex_empirical_covariance, x, assume_centered=c["centered"])
    sc = np.trace(ref(x, True)[1]).real
    close(s, r, tol, "complex empirical covariance", floor=sc, cplx=True)
    herm(s, 1e-12 if c["dtype"] != "half" else 1e-6, "covariance")
    w = np.linalg.eigvalsh(s)
    need(w.min() >= -tol*sc, "covariance has a negative eigenvalue")
    if not c["centered"]:
        close(sut(complex_empirical_covariance, x), r, tol, "default option",
              floor=sc)
    close(sut(complex_empirical_covariance, x.conj(),
              assume_centered=c["centered"]), np.conj(s), tol,
          "covariance of the conjugate data", floor=sc)
    a = gen.mixing(c["key"], "A", p, True, 1)
    close(sut(complex_empirical_covariance, x @ a.T,
              assume_centered=c["centered"]), a @ r @ a.conj().T,
          10*tol, "covariance of transformed data",
          floor=sc*np.linalg.norm(a)**2)
    # a vector is one sample
    one = np.array(x[0])
    close(sut(complex_empirical_covariance, one, assume_centered=True),
          np.outer(one, one.conj()), tol, "covariance of a vector", cplx=True)
    close(sut(complex_empirical_covariance, one), np.zeros((p, p)), 0,
          "centred covariance of a vector", cplx=True)
    close(sut(complex_empirical_covariance, one[None], assume_centered=True),
          np.outer(one, one.conj()), tol, "covariance of one sample")
    if not c["centered"]:
        b = gen.normal(c["key"], "shift", (p,), True)*np.sqrt(sc)
        close(sut(complex_empirical_covariance, x+b), r, 10*tol,
              "covariance of shifted data", floor=sc*p)
    rec.nt(p > 1 and c["n"] > 1)
    label(c, rec)


def make(c):
    cl = ComplexEmpiricalCovariance if c["cplx"] else RealEmpiricalCovariance
    return sut(cl, store_precision=c["store"], assume_centered=c["centered"])


@sub("C12", "fitted_estimator_is_consistent", case(rmin=0), quick=400,
     rule="p > 1, more samples than features, sample mean used")
def _(c, rec):
    x = data(c)
    n, p = x.shape
    tol = 1e-5 if c["dtype"] == "half" else 1e-11
    m, r = ref(x, c["centered"])
    e = make(c)
    need(sut(e.fit, x) is e, "fit does not return the estimator")
    sc = np.trace(ref(x, True)[1]).real
    close(e.location_, m, tol, "location", floor=np.sqrt(sc))
    close(e.covariance_, r, tol, "covariance", floor=sc, cplx=True)
    close(sut(e.transform, x), r, tol, "transform", floor=sc)
    close(sut(make(c).fit_transform, x), r, tol, "fit_transform", floor=sc)
    need(e.n_features_in_ == p, lambda: "n_features_in_ is %s for %d features"
         % (e.n_features_in_, p))
    pr = arr(sut(e.get_precision), (p, p), "precision", cplx=True)
    herm(pr, 1e-6, "precision")
    if c["store"]:
        close(e.precision_, pr, 1e-12, "stored precision")
    else:
        need(e.precision_ is None, "precision is stored against the option")
    w = np.linalg.eigvalsh(r)
    if w[0] > 1e-9*w[-1]:
        close(pr @ e.covariance_, np.eye(p), 1e-13*w[-1]/w[0]*p+1e-12,
              "precision times covariance")
    rec.nt(p > 1 and n > p and not c["centered"])
    label(c, rec)


@sub("C12", "mahalanobis_and_score", case(rmin=3), quick=400,
     rule="p > 1, test data differ from training data, sample mean used")
def _(c, rec):
    x = data(c)
    n, p = x.shape
    e = sut(make(c).fit, x)
    m, r = ref(x, c["centered"])
    y = np.array(data(dict(c, n=c["m"], tail="gauss"), "y"))
    w = np.linalg.eigvalsh(r)
    tol = (1e-4 if c["dtype"] == "half" else 1e-12)*max(10, w[-1]/w[0])
    if tol > 1e-3:
        return
    d = np.asarray(y, dtype=complex if c["cplx"] else float) - m
    q = np.real(np.einsum("ni,in->n", d.conj(), np.linalg.solve(r, d.T)))
    close(sut(e.mahalanobis, y), q, tol, "squared Mahalanobis distances",
          floor=p, cplx=False)
    k = 1.0 if c["cplx"] else .5
    ll = np.mean(-k*(q + np.linalg.slogdet(r)[1] + p*np.log(
        np.pi/k)))
    s = arr(sut(e.score, y), (), "score", cplx=False)
    need(abs(s - ll) <= tol*(np.mean(q) + p*10), lambda: "score %.10g, mean "
         "log-density of the fitted Gaussian model %.10g" % (s, ll))
    rec.nt(p > 1 and not c["centered"])
    label(c, rec)


@sub("C12", "error_norms", case(rmin=2), quick=400,
     rule="p > 1 and a comparison matrix different from the estimate")
def _(c, rec):
    x = data(c)
    p = c["p"]
    e = sut(make(c).fit, x)
    m, r = ref(x, c["centered"])
    o = gen.cov(c["cov"], p, c["cplx"], "other")*(1+c["m"]/5)
    if c["m"] % 3 == 0:
        # a Hermitian difference that its plain square does not reveal
        h = gen.normal(c["key"], "diff", (p, p), c["cplx"])
        o = r + np.trace(r).real/p*(h+h.conj().T)
    df = o - np.asarray(e.covariance_)
    sv = np.linalg.svd(df, compute_uv=False)
    for norm, sq in (("frobenius", np.sum(sv**2)), ("spectral", sv[0]**2)):
        for scaling in (True, False):
            for squared in (True, False):
                v = arr(sut(e.error_norm, o, norm=norm, scaling=scaling,
                            squared=squared), (), "error norm", cplx=False)
                b = sq/p if scaling else sq
                b = b if squared else np.sqrt(b)
                need(abs(v-b) <= 1e-6*b, lambda: "error norm %s, scaling=%s, "
                     "squared=%s is %.10g instead of %.10g" % (
                         norm, scaling, squared, v, b))
    z = arr(sut(e.error_norm, np.array(e.covariance_)), (), "error norm")
    need(z == 0, "error norm at equality is %s" % z)
    d = arr(sut(e.error_norm, o), (), "default error norm")
    need(abs(d - np.sum(sv**2)/p) <= 1e-6*np.sum(sv**2)/p,
         "default error norm")
    rec.nt(p > 1 and sv[0] > 0)
    label(c, rec)


ROBUST = {
    "tyler": (EC.TylerShapeMatrix, EC.ComplexTylerShapeMatrix, {}),
    "student": (EC.CenteredStudentMLE, EC.ComplexCenteredStudentMLE,
                {"df": 3.5}),
    "huber": (EC.HuberMEstimator, EC.ComplexHuberMEstimator, {"q": .9})}


@st.composite
def robust_case(draw):
    c = draw(gen.data_spec(1, 6, ratio=(3, 8), extra=4, max_logc=2, nbig=300,
                           tails=["gauss", "student"]))
    c["est"] = draw(st.sampled_from(sorted(ROBUST)))
    c["m"] = draw(st.integers(1, 9))
    c["norm"] = draw(st.sampled_from(["None", "trace", "determinant"]))
    return c


@sub("C12", "services_of_robust_estimators", robust_case(), quick=300,
     rule="p > 1")
def _(c, rec):
    x = gen.data(c)
    n, p = x.shape
    cl = ROBUST[c["est"]]
    kw = dict(cl[2])
    if c["est"] == "tyler":
        kw["normalisation"] = c["norm"]
    e = sut(sut(cl[1 if c["cplx"] else 0], **kw).fit, x)
    s = arr(e.covariance_, (p, p), "covariance", cplx=c["cplx"])
    posdef(s, "covariance")
    close(e.location_, np.zeros(p), 0, "location of a centred estimator")
    need(e.n_features_in_ == p, "n_features_in_ is %s" % e.n_features_in_)
    pr = sut(e.get_precision)
    w = np.linalg.eigvalsh(s)
    tol = 1e-12*max(10, w[-1]/w[0])
    close(pr @ s, np.eye(p), tol*p, "precision")
    y = np.array(gen.data(dict(c, n=c["m"], tail="gauss"), "y"))
    q = np.real(np.einsum("ni,in->n", y.conj(), np.linalg.solve(s, y.T)))
    close(sut(e.mahalanobis, y), q, tol, "squared Mahalanobis distances",
          floor=1e-6, cplx=False)
    o = gen.cov(c["cov"], p, c["cplx"], "other")
    close(sut(e.error_norm, o, scaling=False), np.linalg.norm(o-s)**2, 1e-7,
          "error norm", cplx=False, floor=1e-12*np.linalg.norm(o)**2)
    if c["est"] == "tyler":
        k = 1.0 if c["cplx"] else .5
        ll = np.mean(-k*(q + np.linalg.slogdet(s)[1] + p*np.log(np.pi/k)))
        v = arr(sut(e.score, y), (), "score", cplx=False)
        need(abs(v-ll) <= tol*10*(np.mean(q)+p*10), lambda: "score %.10g, "
             "mean Gaussian log-density %.10g" % (v, ll))
    rec.nt(p > 1)
    gen.label_data(rec, c)
    rec.label(c["est"])
