"""C19: parameter, copy and refit protocol, against a fresh-estimator model."""
import copy
import inspect
import pickle

import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, KFold, cross_val_score
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import FunctionTransformer

from robuststats.estimation import base as EB
from robuststats.estimation import covariance as EC
from robuststats.estimation import structured as ES
from robuststats.models.manifolds import HermitianPositiveDefinite
from robuststats.online.estimation import StochasticGradientCovarianceEstimator

from .. import gen
from ..core import META, arr, need, sub, sut
from . import mest

META["C19"] = {"assumptions": [
    "estimates with a random starting point (natural gradient without an "
    "initial point) are compared after seeding the global generator equally",
    "set_params between a fit and a read of the fitted results does not "
    "recompute these"]}

P = 4                                          # features


def online_rgrad(X, S):
    """Riemannian gradient of the Tyler cost of the samples at S"""
    q = mest.quad(X, S)
    return S - len(S)*mest.scm(X/np.sqrt(q)[:, None])


def doubled(S):
    return 2*S


def online_cost(X, S):
    return float(np.sum(np.log(mest.quad(X, S))))


COMMON = {"tol": [1e-4, 1e-1, 1e-6], "iter_max": [100, 1, 3, 7],
          "verbosity": [False, True]}
TYLER = dict(COMMON, method=["fixed-point", "natural gradient"],
             normalisation=["None", "trace", "determinant", "element"])
STUDENT = dict(COMMON, df=[3, 1, 20])
HUBER = dict(COMMON, q=[.9, .5, 1])
AB = [(2, 2), (4, 1), (1, 4)]
# name -> class, complex data?, parameter values
KINDS = {
    "empirical": (EB.ComplexEmpiricalCovariance, True, {
        "store_precision": [True, False], "assume_centered": [False, True]}),
    "real-empirical": (EB.RealEmpiricalCovariance, False, {
        "store_precision": [True, False], "assume_centered": [False, True]}),
    "tyler": (EC.TylerShapeMatrix, False, TYLER),
    "ctyler": (EC.ComplexTylerShapeMatrix, True, TYLER),
    "student": (EC.CenteredStudentMLE, False, STUDENT),
    "cstudent": (EC.ComplexCenteredStudentMLE, True, STUDENT),
    "huber": (EC.HuberMEstimator, False, HUBER),
    "chuber": (EC.ComplexHuberMEstimator, True, HUBER),
    "kron": (ES.KroneckerEllipticalMM, True, dict(
        COMMON, ab=AB, store_precision=[True, False])),
    "kronstudent": (ES.KroneckerStudent, True, {
        "ab": AB, "df": [3., 1., 20.], "store_precision": [True, False],
        "assume_centered": [True, False], "verbosity": [0, 1]}),
    "online": (StochasticGradientCovarianceEstimator, True, {
        "manifold": [HermitianPositiveDefinite(P)], "rgrad": [online_rgrad],
        "lrate": [.5, .1, 1.], "estimatetocov": [None, doubled],
        "cost": [None, online_cost], "verbosity": [False, True]}),
}


def kw(params):
    d = dict(params)
    if "ab" in d:
        d["a"], d["b"] = d.pop("ab")
    return d


@st.composite
def history(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    space = KINDS[kind][2]
    idx = {k: draw(st.integers(0, len(v)-1)) for k, v in sorted(
        space.items())}
    pname = st.sampled_from(sorted(space))
    op = st.one_of(
        st.tuples(st.just("fit"), st.integers(0, 3), st.integers(0, 2),
                  st.booleans()),
        st.tuples(st.just("fit"), st.integers(0, 3), st.integers(0, 2),
                  st.booleans()),
        st.tuples(st.just("set"), st.integers(0, 3), pname,
                  st.integers(0, 3)),
        st.tuples(st.just("set"), st.integers(0, 3), pname,
                  st.integers(0, 3)),
        st.tuples(st.sampled_from(["clone", "deepcopy", "pickle", "new",
                                   "transform", "fit_transform", "use"]),
                  st.integers(0, 3), st.integers(0, 2)))
    ops = draw(st.lists(op.map(list), min_size=2, max_size=9))
    return {"kind": kind, "idx": idx, "ops": ops, "key": draw(gen.KEY)}


OBS = ("covariance_", "location_", "precision_", "err_", "iteration_", "A_",
       "B_", "estimate_")


def observe(e):
    return {k: copy.deepcopy(getattr(e, k)) for k in OBS if hasattr(e, k)}


def agree(got, want, what):
    for k in want:
        need(k in got, "%s: no attribute %s" % (what, k))
        a, b = got[k], want[k]
        if b is None or a is None:
            need(a is None and b is None, lambda: "%s: %s is %r, expected %r"
                 % (what, k, a, b))
            continue
        a, b = np.asarray(a), np.asarray(b)
        need(a.shape == b.shape and a.dtype.kind == b.dtype.kind and
             np.allclose(a, b, rtol=1e-10, atol=1e-14*np.max(
                 np.abs(b[np.isfinite(b)]), initial=0), equal_nan=True),
             lambda: "%s: %s differs\n got %s\n expected %s" % (
                 what, k, a, b))


class World:
    def __init__(self, c):
        self.c = c
        self.cls, self.cplx, self.space = KINDS[c["kind"]]
        self.ref = {}
        self.data = []
        for i, (n, tail) in enumerate(((20, 1), (13, 3), (31, .5))):
            x = gen.normal(c["key"], "x%d" % i, (n, P), self.cplx)
            x = x @ gen.mixing(c["key"], "m%d" % i, P, self.cplx)
            x = x/np.sqrt(gen.rng(c["key"], "t%d" % i).chisquare(
                2*tail, n)/(2*tail))[:, None]
            self.data.append(x + .3*i)
        self.init = gen.cov({"key": c["key"], "kind": "rand", "logc": .5,
                             "logs": 0}, P, self.cplx)

    def fit_options(self, init):
        if self.c["kind"] == "online":
            return {"init": self.init if init else np.eye(P, dtype=complex),
                    "lr_update": "constant" if init else "inverse iteration"}
        if init and "method" in self.space or (
                init and ("df" in self.space or "q" in self.space)
                and "ab" not in self.space):
            return {"init": self.init}
        return {}

    def new(self, params):
        return sut(self.cls, **kw(params))

    def fit(self, e, d, init, method="fit"):
        np.random.seed(1234)
        return sut(getattr(e, method), self.data[d].copy(),
                   **self.fit_options(init))

    def reference(self, params, d, init):
        k = (tuple(sorted((n, id(v) if callable(v) or n == "manifold" else v)
                          for n, v in params.items())), d, init)
        if k not in self.ref:
            e = self.new(params)
            self.fit(e, d, init)
            self.ref[k] = observe(e)
        return self.ref[k]


def params_shown(e, params, what):
    got = sut(e.get_params)
    for k, v in kw(params).items():
        need(k in got, "%s: parameter %s cannot be read" % (what, k))
        if k == "manifold":
            need(type(got[k]) is type(v), "%s: manifold" % what)
        else:
            need(got[k] is v or got[k] == v, lambda: "%s: parameter %s is %r,"
                 " was set to %r" % (what, k, got[k], v))


@sub("C19", "histories", history(), quick=800, shards=6,
     rule="a parameter changed or a copy made before a later fit")
def _(c, rec):
    w = World(c)
    p0 = {k: w.space[k][i] for k, i in c["idx"].items()}
    live = [[w.new(p0), dict(p0), None]]      # object, parameters, fitted
    changed = False
    for op in c["ops"]:
        o = live[op[1] % len(live)]
        e, params, fitted = o
        name = op[0]
        if name == "new":
            live.append([w.new(p0), dict(p0), None])
        elif name == "fit":
            r = w.fit(e, op[2], op[3])
            need(r is e, "fit does not return the estimator")
            o[2] = (dict(params), op[2], op[3])
            rec.nt(rec.nontrivial or changed)
        elif name == "set":
            vals = w.space[op[2]]
            v = vals[op[3] % len(vals)]
            r = sut(e.set_params, **kw({op[2]: v}))
            need(r is e, "set_params does not return the estimator")
            params[op[2]] = v
            changed = True
        elif name == "clone":
            live.append([sut(clone, e), dict(params), None])
            changed = True
        elif name == "deepcopy":
            live.append([sut(copy.deepcopy, e), dict(params), fitted])
            changed = True
        elif name == "pickle":
            live.append([sut(pickle.loads, sut(pickle.dumps, e)),
                         dict(params), fitted])
            changed = True
        elif name == "transform" and fitted is not None:
            t = sut(e.transform, w.data[op[2]])
            agree({"covariance_": t}, {"covariance_": w.reference(
                *fitted)["covariance_"]}, "transform")
        elif name == "fit_transform":
            t = w.fit(e, op[2], True, "fit_transform")
            o[2] = (dict(params), op[2], True)
            agree({"covariance_": t}, {"covariance_": w.reference(
                *o[2])["covariance_"]}, "fit_transform")
            rec.nt(rec.nontrivial or changed)
        elif name == "use":
            need(isinstance(sut(repr, e), str), "repr")
            need(sut(str, e) is not None, "str")
            if fitted is not None:
                same_behaviour(w, e, copy.deepcopy(e), op[2])
        live = live[:5]
        for i, (e, params, fitted) in enumerate(live):
            what = "%s after %s: object %d" % (c["kind"], op, i)
            params_shown(e, params, what)
            if fitted is None:
                need(not hasattr(e, "covariance_"), what + " is fitted")
            else:
                agree(observe(e), w.reference(*fitted), what)
    rec.label(c["kind"], "ops=%d" % len(c["ops"]))


def same_behaviour(w, e, f, d):
    f2 = sut(pickle.loads, sut(pickle.dumps, e))
    x = w.data[d]
    for name in ("score", "mahalanobis", "get_precision", "transform"):
        res = []
        for o in (e, f, f2):
            try:
                with np.errstate(all="ignore"):
                    res.append(getattr(o, name)(
                        *(() if name == "get_precision" else (x.copy(),))))
            except Exception as ex:                           # noqa: BLE001
                res.append(type(ex).__name__)
        for r in res[1:]:
            need(type(r) is type(res[0]) and (
                r is None or (r == res[0] if isinstance(r, str) else
                              np.allclose(r, res[0], rtol=1e-10))),
                 lambda: "%s: %s of a copy gives %r, of the original %r" % (
                     w.c["kind"], name, r, res[0]))


@sub("C19", "constructor_parameters", st.fixed_dictionaries({
    "kind": st.sampled_from(sorted(KINDS)), "key": gen.KEY,
    "vals": st.lists(st.integers(0, 3), min_size=8, max_size=8)}),
    quick=120, rule="some parameter not at its default")
def _(c, rec):
    cls, _, space = KINDS[c["kind"]]
    sig = inspect.signature(cls)
    p = {k: v[c["vals"][i % 8] % len(v)] for i, (k, v) in enumerate(sorted(
        space.items()))}
    e = sut(cls, **kw(p))
    names = {n for n, q in sig.parameters.items()
             if q.kind not in (q.VAR_KEYWORD, q.VAR_POSITIONAL)}
    got = sut(e.get_params)
    need(names <= set(got), lambda: "parameters %s cannot be read" % (
        names - set(got)))
    params_shown(e, p, c["kind"])
    # defaults are those of the signature
    req = {k: v for k, v in kw(p).items()
           if sig.parameters[k].default is inspect.Parameter.empty} \
        if all(k in sig.parameters for k in kw(p)) else kw(p)
    d = sut(cls, **req)
    g = sut(d.get_params)
    for n in names - set(req):
        w = sig.parameters[n].default
        if w is inspect.Parameter.empty:
            continue
        need(g[n] is w or g[n] == w, lambda: "default of %s reads %r, "
             "signature %r" % (n, g[n], w))
    # a clone holds the same parameters and is another object
    f = sut(clone, e)
    need(f is not e and type(f) is type(e), "clone")
    params_shown(f, p, "clone")
    # setting each parameter by name gives the same as constructing with it
    for k, v in kw(p).items():
        if k not in req:
            sut(d.set_params, **{k: v})
    params_shown(d, p, "set one by one")
    try:
        d.set_params(no_such_parameter=1)
    except ValueError:
        pass
    else:
        need(False, "an unknown parameter name is accepted")
    rec.nt(any(p[k] != space[k][0] for k in p))
    rec.label(c["kind"])


@st.composite
def transformer_case(draw):
    kind = draw(st.sampled_from(["tyler", "ctyler", "student", "cstudent",
                                 "huber", "chuber", "empirical"]))
    space = {k: v for k, v in KINDS[kind][2].items() if k != "verbosity"}
    names = st.sampled_from(sorted(space))
    return {"kind": kind, "key": draw(gen.KEY),
            "features": draw(st.booleans()),
            "sets": draw(st.lists(st.tuples(names, st.integers(0, 3)).map(
                list), min_size=1, max_size=4)),
            "via": draw(st.sampled_from(["nested", "copy", "clone"]))}


@sub("C19", "transformer_parameters", transformer_case(), quick=120,
     shards=2, rule="a parameter of the inner estimator changed")
def _(c, rec):
    cls, cplx, space = KINDS[c["kind"]]
    p = {k: v[0] for k, v in space.items()}
    p["verbosity"] = False
    p = {k: v for k, v in p.items() if k in space}
    T = EB.FeaturesEstimation if c["features"] else EB.CovariancesEstimation
    x = gen.normal(c["key"], "x", (2, 15, 3), cplx)
    t = sut(T, sut(cls, **p), n_jobs=1)

    def expected(q):
        r = []
        for i in range(2):
            np.random.seed(99)
            r.append(sut(sut(cls, **q).fit, x[i]).covariance_)
        return np.array(r)

    def got(t):
        class Seeded:
            pass
        r = []
        for i in range(2):
            np.random.seed(99)
            o = sut(t.transform, x[i:i+1])
            o = sut(o.export)[None] if c["features"] else o
            r.append(o[0])
        return np.array(r)
    u = t
    if c["via"] == "copy":
        u = sut(copy.deepcopy, t)
    elif c["via"] == "clone":
        u = sut(clone, t)
    q = dict(p)
    for k, i in c["sets"]:
        q[k] = space[k][i % len(space[k])]
        sut(u.set_params, **{"estimator__"+k: q[k]})
    need(sut(u.fit, x) is u, "fit does not return the transformer")
    agree({"c": got(u)}, {"c": expected(q)}, "after setting %s" % c["sets"])
    if u is not t:
        agree({"c": got(t)}, {"c": expected(p)}, "original transformer")
    g = sut(u.get_params)
    for k, v in q.items():
        need(g["estimator__"+k] == v, "inner parameter %s" % k)
    rec.nt(q != p)
    rec.label(c["kind"], c["via"], "features" if c["features"] else "cov")


@st.composite
def selection_case(draw):
    kind = draw(st.sampled_from(["tyler", "ctyler", "student", "cstudent",
                                 "empirical", "real-empirical", "kronstudent"]))
    space = {k: v for k, v in KINDS[kind][2].items()
             if k not in ("verbosity", "ab", "method")}
    names = draw(st.lists(st.sampled_from(sorted(space)), min_size=1,
                          max_size=2, unique=True))
    return {"kind": kind, "key": draw(gen.KEY), "grid": names,
            "folds": draw(st.integers(2, 4)), "n": draw(st.integers(24, 40)),
            "jobs": draw(st.sampled_from([None, None, None, 2]))}


@sub("C19", "model_selection", selection_case(), quick=30, shards=3,
     rule="parameters searched over with cross-validation")
def _(c, rec):
    # scikit-learn's own tools drive clone, set_params, fit and score
    cls, cplx, space = KINDS[c["kind"]]
    p = {k: v[0] for k, v in space.items()}
    x = gen.normal(c["key"], "x", (c["n"], P), cplx) @ gen.mixing(
        c["key"], "m", P, cplx)
    grid = {k: space[k][:2] for k in c["grid"]}
    cv = KFold(c["folds"])

    def scores(q):
        r = []
        for train, test in cv.split(x):
            e = sut(cls, **kw(q))
            sut(e.fit, x[train].copy())
            r.append(sut(e.score, x[test].copy()))
        return np.array(r)
    e = sut(cls, **kw(p))
    got = sut(cross_val_score, e, x, cv=cv, n_jobs=c["jobs"],
              error_score="raise")
    want = scores(p)
    need(np.allclose(got, want, rtol=1e-9), lambda: "cross-validated scores "
         "%s, expected %s" % (got, want))
    need(not hasattr(e, "covariance_"), "cross-validation fits the original")
    g = GridSearchCV(e, grid, cv=cv, error_score="raise", n_jobs=c["jobs"])
    sut(g.fit, x)
    means = []
    for q in g.cv_results_["params"]:
        means.append(np.mean(scores(dict(p, **q))))
    got = g.cv_results_["mean_test_score"]
    need(np.allclose(got, means, rtol=1e-9), lambda: "scores of the search %s,"
         " expected %s" % (got, means))
    best = dict(p, **g.best_params_)
    f = sut(cls, **kw(best))
    sut(f.fit, x.copy())
    agree(observe(g.best_estimator_), observe(f), "best estimator")
    params_shown(g.best_estimator_, best, "best estimator")
    params_shown(e, p, "original after the search")
    # as the last step of a pipeline, and inside a clone of it
    pl = Pipeline([("scale", FunctionTransformer(doubled)), ("cov", e)])
    k = c["grid"][0]
    q = dict(p, **{k: space[k][-1]})
    pl = sut(clone, sut(pl.set_params, **{"cov__"+k: q[k]}))
    t = sut(pl.fit_transform, x)
    f = sut(cls, **kw(q))
    sut(f.fit, 2*x)
    agree({"c": t}, {"c": f.covariance_}, "pipeline")
    need(np.allclose(sut(pl.score, x), sut(f.score, 2*x), rtol=1e-9),
         "score of the pipeline")
    rec.nt()
    rec.label(c["kind"], "folds=%d" % c["folds"])
