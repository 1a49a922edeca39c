"""C20: batch transformers."""
import contextlib
import copy
import os

import numpy as np
from hypothesis import strategies as st

from robuststats.estimation import base as EB
from robuststats.estimation import covariance as EC
from robuststats.estimation import structured as ES
from robuststats.models.manifolds import HermitianPositiveDefinite
from robuststats.online.estimation import StochasticGradientCovarianceEstimator

from .. import ests, gen
from ..core import META, arr, close, need, rejects, same, sub, sut

META["C20"] = {"assumptions": [
    "estimators that are deterministic functions of a trial and the options",
    "parallel runs use the loky workers of joblib"]}

COV = {
    "remembering": lambda c: ests.Remembering(.5),
    "nested": lambda c: ests.Nested(ests.Remembering(.5)),
    "tyler": lambda c: EC.TylerShapeMatrix(normalisation="trace"),
    "student": lambda c: EC.CenteredStudentMLE(3., tol=1e-3),
    "huber": lambda c: EC.HuberMEstimator(.8, iter_max=7),
    "real": lambda c: EB.RealEmpiricalCovariance(),
    "ctyler": lambda c: EC.ComplexTylerShapeMatrix(),
    "cstudent": lambda c: EC.ComplexCenteredStudentMLE(2.),
    "chuber": lambda c: EC.ComplexHuberMEstimator(.8),
    "cempirical": lambda c: EB.ComplexEmpiricalCovariance(
        assume_centered=True),
    "kron": lambda c: ES.KroneckerEllipticalMM(2, c["p"]//2),
    "gradient": lambda c: EC.TylerShapeMatrix(method="natural gradient"),
    "conline": lambda c: online(c),
}


def online(c):
    """set up with a starting point, which the trials' fits start from"""
    e = StochasticGradientCovarianceEstimator(
        HermitianPositiveDefinite(c["p"]), ests.rgrad, .1)
    e.set_estimate(gen.cov({"key": c["key"], "kind": "rand", "logc": .5,
                            "logs": 0}, c["p"], True, "set"))
    return e


INIT = ("tyler", "student", "huber", "ctyler", "cstudent", "chuber",
        "gradient")
FEAT = dict(COV, scale=lambda c: ests.CovScale(c["parts"], c["order"]),
            scalar=lambda c: ests.Scalar())


@st.composite
def case(draw, feat=False):
    c = {"est": draw(st.sampled_from(sorted(FEAT if feat else COV))),
         "p": draw(st.integers(1, 4)), "trials": draw(gen.size(1, 6, 80, 15)),
         "n": draw(st.integers(12, 20)), "key": draw(gen.KEY),
         "dtype": draw(st.sampled_from(["float64", "float64", "int64",
                                        "int8", "uint8", "float32"])),
         "layout": draw(st.sampled_from(gen.LAYOUTS)),
         "option": draw(st.booleans()),
         "fitted": draw(st.sampled_from([False, False, True])), "parts": draw(st.integers(1, 3)),
         "order": draw(st.sampled_from(["list", "tuple"])),
         "jobs": draw(st.sampled_from([2, 2, 2, 3]))}
    if c["est"][0] == "c" or c["est"] == "kron":
        # complex data, or the real representation of complex data
        c["dtype"] = draw(st.sampled_from(
            ["complex128", "complex128", "complex64", "float64", "int64"]))
    if c["est"] in ("remembering", "nested", "scale", "scalar"):
        c["dtype"] = draw(st.sampled_from(["float64", "complex128",
                                           "int64"]))
    if c["est"] == "kron":
        c["p"] = 2*draw(st.integers(1, 2))
        c["n"] += 10
    if c["est"] == "gradient":
        c["option"], c["dtype"] = True, "float64"
    if c["est"] == "conline":
        c["dtype"] = "complex128"
    return c


def stack(c):
    t = np.dtype(c["dtype"])
    cplx = c["est"][0] == "c" or c["est"] == "kron"
    p = c["p"]*(2 if cplx and t.kind != "c" else 1)
    x = gen.normal(c["key"], "x", (c["trials"], c["n"], p), t.kind == "c")
    x = x*(1 + np.arange(c["trials"]) % 6)[:, None, None]
    if t.kind == "i":
        x = np.round(20*x)
        x = np.clip(x + (x >= 0), -120, 120)      # no zero
    if t.kind == "u":
        x = np.clip(np.abs(np.round(50*x)) + 1, 1, 250)
    return gen.layout(x.astype(t), c["layout"])


def options(c):
    if not c["option"]:
        return {}
    if c["est"] in ("remembering", "nested"):
        return {"scale": 2.5}
    if c["est"] in INIT:
        return {"init": gen.cov({"key": c["key"], "kind": "rand",
                                 "logc": .5, "logs": 0}, c["p"],
                                c["est"][0] == "c")}
    return {}


@contextlib.contextmanager
def quiet(jobs):
    """workers inherit the standard error"""
    if jobs == 1:
        yield
        return
    saved, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(null)


def given(c):
    """the estimator handed to the transformer, in some cases fitted before"""
    e = FEAT[c["est"]](c)
    if c.get("fitted"):
        d = dict(c, key=c["key"] + 1, trials=1, layout="C")
        sut(e.fit, stack(d)[0], **options(c))
    return e


def state(e):
    s = {k: copy.deepcopy(v) for k, v in vars(e).items()
         if isinstance(v, (np.ndarray, int, float, list))}
    if isinstance(e, ests.Nested):
        s.update(("inner." + k, v) for k, v in state(e.inner).items())
    return s


def unchanged(e, before):
    now = state(e)
    need(set(now) == set(before), lambda: "attributes of the given estimator "
         "were %s and are %s" % (sorted(before), sorted(now)))
    for k, v in before.items():
        for a, b in zip(*[u if isinstance(u, list) else [u]
                          for u in (now[k], v)]):
            same(a, b, "%s of the given estimator" % k)


def single(c, x, opt):
    e = given(c)
    return sut(e.fit, np.array(x), **opt).covariance_


def check_cov(c, rec, jobs):
    x = stack(c)
    before = np.array(x)
    opt = options(c)
    o0 = copy.deepcopy(opt)
    e = given(c)
    p0, s0 = e.get_params(), state(e)
    t = sut(EB.CovariancesEstimation, e, n_jobs=jobs)
    need(sut(t.fit, x) is t, "fit does not return the transformer")
    want = [single(c, x[i], opt) for i in range(len(x))]
    got = sut(t.transform, x, **opt)
    judge(got, want)
    # again, and on the trials in another order, with the same transformer
    judge(sut(t.transform, x, **opt), want)
    g = gen.rng(c["key"], "perm").permutation(len(x))
    judge(sut(t.transform, np.array(x)[g], **opt), [want[i] for i in g])
    if not opt:
        judge(sut(t.fit_transform, x), want)
    same(x, before, "stack of trials after the estimation")
    for k in opt:
        same(opt[k], o0[k], "option after the estimation")
    need(e.get_params() == p0, "parameters of the given estimator changed")
    unchanged(e, s0)
    rec.nt(c["trials"] > 1 and c["p"] > 1)
    rec.label(c["est"], c["dtype"], "layout=" + c["layout"],
              "jobs=%d" % jobs, "options" if opt else "no options")


def judge(got, want):
    w = np.array(want)
    g = arr(got, w.shape, "covariances", cplx=np.iscomplexobj(w))
    for i in range(len(w)):
        need(np.allclose(g[i], w[i], rtol=1e-12 if w.dtype.itemsize in (8, 16)
                         and w.dtype.kind + str(w.dtype.itemsize) != "c8"
                         else 1e-6, atol=1e-13*np.abs(w[i]).max()), lambda:
             "trial %d: got %s, alone %s" % (i, g[i], w[i]))


@sub("C20", "covariances_serial", case(), quick=400, shards=2,
     rule="several trials, p > 1")
def _(c, rec):
    check_cov(c, rec, 1)


@sub("C20", "covariances_parallel", case(), quick=60, thorough=600,
     rule="several trials, p > 1")
def _(c, rec):
    jobs = c.get("jobs", 2)
    with quiet(jobs):
        check_cov(c, rec, jobs)
        x = stack(c)
        opt = options(c)
        a = sut(sut(EB.CovariancesEstimation, given(c)).transform, x,
                **opt)
        b = sut(sut(EB.CovariancesEstimation, given(c),
                    n_jobs=jobs).transform, x, **opt)
    need(np.allclose(a, b, rtol=1e-12, atol=0) and a.dtype == b.dtype,
         "serial and parallel results differ")


def check_feat(c, rec, jobs):
    if c["est"] in ("gradient",):
        c = dict(c, est="tyler")
    c = dict(c, option=False)
    x = stack(c)
    before = np.array(x)
    e = given(c)
    s0 = state(e)
    t = sut(EB.FeaturesEstimation, e, n_jobs=jobs)
    need(sut(t.fit, x) is t, "fit does not return the transformer")
    want = []
    for i in range(len(x)):
        f = sut(given(c).fit_transform, np.array(x[i]))
        f = f if isinstance(f, (list, tuple)) else [np.atleast_1d(f)]
        want.append(f)
    cols = [np.array([w[j] for w in want]) for j in range(len(want[0]))]
    for rep in range(2):
        got = sut(t.transform, x)
        need(len(got) == len(x), lambda: "%d features for %d trials" % (
            len(got), len(x)))
        need(tuple(got.shape) == tuple(w.shape for w in cols), lambda:
             "shapes %s, expected %s" % (got.shape, [w.shape for w in cols]))
        out = sut(got.export)
        out = [out] if len(cols) == 1 else out
        for j, w in enumerate(cols):
            o = np.asarray(out[j]).reshape(w.shape)
            need(o.dtype == w.dtype and np.allclose(
                o, w, rtol=1e-6 if w.dtype in (np.float32, np.complex64)
                else 1e-12, atol=1e-13*np.abs(w).max()), lambda:
                "feature %d: got %s, trial by trial %s" % (j, o, w))
        one = sut(got.__getitem__, len(x)-1)
        need(len(one) == 1, "indexing")
    same(x, before, "stack of trials after the estimation")
    unchanged(e, s0)
    rec.nt(c["trials"] > 1 and (len(cols) > 1 or c["p"] > 1))
    rec.label(c["est"], c["dtype"], "jobs=%d" % jobs,
              "parts=%d" % len(cols))


@sub("C20", "features_serial", case(True), quick=300,
     rule="several trials, several features or p > 1")
def _(c, rec):
    check_feat(c, rec, 1)


@sub("C20", "features_parallel", case(True), quick=40, thorough=400,
     rule="several trials, several features or p > 1")
def _(c, rec):
    jobs = c.get("jobs", 2)
    with quiet(jobs):
        check_feat(c, rec, jobs)


@st.composite
def large(draw):
    # trials of more than a megabyte, which joblib hands over as files
    c = draw(case(True))
    c.update(est=draw(st.sampled_from(["remembering", "real", "cempirical",
                                       "tyler", "scale"])),
             p=draw(st.sampled_from([2, 3, 4])), trials=draw(
                 st.integers(2, 3)), n=draw(st.integers(66000, 90000)),
             option=False, jobs=draw(st.sampled_from([2, 2, 3])))
    c["dtype"] = "complex128" if c["est"] == "cempirical" else "float64"
    return c


@sub("C20", "large_trials_parallel", large(), quick=6, thorough=100,
     shards=1, rule="trials of more than a megabyte")
def _(c, rec):
    with quiet(c["jobs"]):
        if c["est"] != "scale":
            check_cov(c, rec, c["jobs"])
        check_feat(c, rec, c["jobs"])
    rec.nt()


@st.composite
def many(draw):
    c = draw(case(True))
    c.update(est=draw(st.sampled_from(["remembering", "real", "cempirical",
                                       "scale", "scalar"])),
             trials=draw(st.sampled_from([300, 1000, 1001, 1100, 2100])), n=draw(st.integers(2, 4)))
    c["dtype"] = "complex128" if c["est"] == "cempirical" else "float64"
    return c


@sub("C20", "many_trials", many(), quick=6,
     rule="more trials than a feature array holds at first")
def _(c, rec):
    if c["est"] not in ("scale", "scalar"):
        check_cov(c, rec, 1)
    check_feat(c, rec, 1)
    rec.nt(c["trials"] > 1001)


@sub("C20", "covariance_with_scale", case(), quick=60,
     rule="several trials, p > 1")
def _(c, rec):
    """estimators of a covariance and a scale: both are the features"""
    class Both(EB.RealCovarianceScale):
        def fit(self, X, y=None):
            self.covariance_ = X.T @ X/len(X)
            self.scale_ = np.sum(X**2, axis=1, keepdims=True)
            return self
    c = dict(c, est="real", dtype="float64")
    x = stack(c)
    covs = [t.T @ t/len(t) for t in x]
    scales = [np.sum(t**2, axis=1, keepdims=True) for t in x]
    e = sut(sut(Both).fit, x[0])
    same(sut(e.get_scale), scales[0], "scale")
    both = sut(e.transform, x[0])
    need(len(both) == 2, "%d parts" % len(both))
    same(both[0], covs[0], "covariance")
    same(both[1], scales[0], "scale")
    need(e.get_params() == {"assume_centered": True,
                            "store_precision": False},
         lambda: "parameters are %r" % e.get_params())
    f = sut(sut(EB.FeaturesEstimation, Both()).transform, x)
    out = sut(f.export)
    close(np.reshape(out[0], np.shape(covs)), np.array(covs), 1e-12,
          "covariances of the trials")
    close(np.reshape(out[1], np.shape(scales)), np.array(scales), 1e-12,
          "scales of the trials")
    rejects(EB.RealCovarianceScale().fit, x[0], exc=NotImplementedError,
            what="fit of the base class")
    rec.nt(c["trials"] > 1 and c["p"] > 1)
