"""C28: estimation is pure."""
import copy

import numpy as np
from hypothesis import strategies as st

from robuststats.estimation import base as EB
from robuststats.estimation import covariance as EC
from robuststats.estimation import structured as ES
from robuststats.models import cost as MC
from robuststats.models import manifolds as MM
from robuststats.models import mappings as MP
from robuststats.models import probability as PR
from robuststats.utils import linalg as L

from .. import gen
from ..core import META, need, sub, sut
from . import c19, geo, mest

META["C28"] = {"assumptions": [
    "layouts are compared at well conditioned inputs and a fixed number of "
    "iterations, to rounding error (gradient solvers: to their tolerance)",
    "what may be returned without copy (views of an input) is not specified"]}

PM = 4


# ------------------------------------------------------------ nested arrays
def walk(x, f):
    if isinstance(x, np.ndarray):
        return f(x)
    if isinstance(x, dict):
        return {k: walk(v, f) for k, v in x.items()}
    if isinstance(x, list):
        return [walk(v, f) for v in x]
    if isinstance(x, tuple):
        return tuple(walk(v, f) for v in x)
    return x


def leaves(x, out=None):
    out = [] if out is None else out
    if isinstance(x, dict):
        for k in sorted(x):
            leaves(x[k], out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            leaves(v, out)
    else:
        out.append(x)
    return out


def identical(a, b, what):
    la, lb = leaves(a), leaves(b)
    need(len(la) == len(lb), "%s: %d parts, expected %d" % (
        what, len(la), len(lb)))
    for u, v in zip(la, lb):
        if u is None or v is None or isinstance(v, (str, bool)):
            need(u is v or u == v, "%s: %r, expected %r" % (what, u, v))
            continue
        u, v = np.asarray(u), np.asarray(v)
        need(u.shape == v.shape and u.dtype == v.dtype
             and np.array_equal(u, v, equal_nan=True),
             lambda: "%s: not identical, largest difference %.3g\n got %s\n "
             "expected %s" % (what, np.max(np.abs(u-v)) if u.shape == v.shape
                              and u.size else np.nan, u, v))


def near(a, b, tol, what):
    la, lb = leaves(a), leaves(b)
    need(len(la) == len(lb), "%s: %d parts, expected %d" % (
        what, len(la), len(lb)))
    for u, v in zip(la, lb):
        if u is None or v is None or isinstance(v, (str, bool)):
            need(u is v or u == v, "%s: %r, expected %r" % (what, u, v))
            continue
        u, v = np.asarray(u), np.asarray(v)
        need(u.shape == v.shape, lambda: "%s: shape %s, expected %s" % (
            what, u.shape, v.shape))
        need(u.dtype == v.dtype, lambda: "%s: type %s, expected %s" % (
            what, u.dtype, v.dtype))
        if not v.size:
            continue
        s = max(np.max(np.abs(v)), 1e-3)
        need(np.max(np.abs(u-v)) <= tol*s, lambda: "%s: largest difference "
             "%.3g of %.3g" % (what, np.max(np.abs(u-v)), s))


# --------------------------------------------------------------- operations
class Make:
    """Arguments of an operation."""

    def __init__(self, c):
        self.key, self.p, self.n = c["key"], c["p"], c["n"]
        self.opt = c["opt"]

    def x(self, cplx, tag="x", p=None, n=None):
        p = p or self.p
        g = gen.normal(self.key, tag, (n or self.n+3*p, p), cplx)
        return g @ gen.mixing(self.key, tag+"m", p, cplx)

    def cov(self, cplx, tag="c", p=None):
        return gen.cov({"key": self.key, "kind": "rand", "logc": .75,
                        "logs": .5}, p or self.p, cplx, tag)

    def any(self, cplx, tag="a", shape=None):
        return gen.normal(self.key, tag, shape or (self.p, self.p), cplx)

    def vec(self, cplx, tag="v"):
        return gen.normal(self.key, tag, (self.p,), cplx)


REUSE = {"on": False, "objects": {}}      # manifolds (and estimators) kept


def kept_object(key, make, always):
    """the object of an earlier call of this case, or a new one"""
    if not (always or REUSE["on"]):
        return make()
    if key not in REUSE["objects"]:
        REUSE["objects"][key] = make()
    return REUSE["objects"][key]


CONTROLS = 1200


def controls(opt, most):
    """tolerance and iteration limit: never stopped by the tolerance, where
    runs that differ by rounding are compared, or any"""
    k, opt = divmod(opt, CONTROLS)
    if not k:
        return {"tol": -1., "iter_max": 1 + opt % most}
    return {"tol": [.5, 1e-2, 1e-4, 1e-9][k % 4],
            "iter_max": [0, 1, 5, 30, 200][k % 5]}


OPS = {}        # name -> (make(Make) -> args, run(args) -> result, options)


def op(name, make, run, **o):
    OPS[name] = (make, run, o)


for _k, (_cls, _cplx, _space) in sorted(c19.KINDS.items()):
    def _mk(m, _cplx=_cplx, _k=_k):
        P = c19.P
        a = {"x": m.x(_cplx, p=P), "y": m.x(_cplx, "y", p=P, n=5)}
        if _k == "kronstudent":
            i, j = c19.KINDS[_k][2]["ab"][m.opt % 3]
            A = m.cov(True, "A", i)
            a["init"] = (A/np.exp(np.linalg.slogdet(A)[1]/i),
                         m.cov(True, "B", j))
        elif _k in ("online",) or "method" in c19.KINDS[_k][2] or \
                _k in ("student", "cstudent", "huber", "chuber"):
            a["init"] = m.cov(_cplx, p=P)
        if _k == "empirical":
            a["z"] = m.cov(_cplx, "z", p=P)
        return a

    def _run(a, opt, _cls=_cls, _k=_k, verbosity=None, services=True):
        space = c19.KINDS[_k][2]
        p = {n: v[(opt//(3*i+1)) % len(v)] for i, (n, v) in enumerate(
            sorted(space.items()))}
        if "tol" in p:
            p.update(controls(opt, 5))
        if "ab" in p:
            p["ab"] = space["ab"][opt % 3]
        if "verbosity" in p:
            p["verbosity"] = space["verbosity"][0] if verbosity is None \
                else verbosity
        e = kept_object((_k, opt, verbosity), lambda: _cls(**c19.kw(p)),
                        False)
        e.fit(a["x"], **({"init": a["init"]} if "init" in a else {}))
        r = {"fit": c19.observe(e)}
        if services:
            r["transform"] = e.transform(a["x"])
            r["mahalanobis"] = e.mahalanobis(a["y"])
            r["precision"] = e.get_precision()
            r["error"] = e.error_norm(a.get("z", 2*e.covariance_))
            if _k not in ("huber", "chuber", "kron"):
                r["score"] = e.score(a["y"])
            after = c19.observe(e)
            identical(after, r["fit"], "fit of %s after its services" % _k)
        return r
    op("fit " + _k, _mk, _run, estimator=True,
       gradient=lambda c, _k=_k: _k == "kronstudent" or
       "method" in c19.KINDS[_k][2],
       verbosity="verbosity" in _space)

FUN = {"tyler": (EC.tyler_shape_matrix_fixedpoint, False, {}),
       "ctyler": (EC.complex_tyler_shape_matrix_fixedpoint, True, {}),
       "student": (EC.student_t_mle_fixed_point, False, {"df": 3.}),
       "cstudent": (EC.complex_student_t_mle_fixed_point, True, {"df": 3.}),
       "huber": (EC.huber_m_estimator_fixed_point, False, {"q": .9}),
       "chuber": (EC.complex_huber_m_estimator_fixed_point, True, {"q": .9}),
       "tyler gradient": (EC.tyler_shape_matrix_naturalgradient, False, {}),
       "ctyler gradient": (EC.complex_tyler_shape_matrix_naturalgradient,
                           True, {})}
NORMS = ["None", "trace", "determinant", "element"]
for _k, (_f, _cplx, _o) in FUN.items():
    def _mk(m, _cplx=_cplx, _k=_k):
        a = {"x": m.x(_cplx)}
        if m.opt % 2 or "gradient" in _k:
            a["init"] = m.cov(_cplx)
        return a

    def _run(a, opt, _f=_f, _k=_k, _o=_o, verbosity=None):
        o = dict(_o)
        if "gradient" not in _k:
            o.update(controls(opt, 6))
        if "tyler" in _k:
            o["normalisation"] = NORMS[opt % 4]
        if verbosity is not None:
            o["verbosity"] = verbosity
        return _f(a["x"], init=a.get("init"), **o)
    op("function " + _k, _mk, _run, verbosity=True,
       gradient=lambda c, _k=_k: "gradient" in _k)

AB = [(1, 2), (2, 1), (2, 2), (3, 2), (1, 1)]
op("function kron", lambda m: {"x": m.x(m.opt % 2 > 0, p=int(
    np.prod(AB[m.opt % 5])))},
   lambda a, opt, verbosity=False: ES.estimation_cov_kronecker_MM(
       a["x"], *AB[opt % 5], **controls(opt, 4),
       verbosity=verbosity), verbosity=True)


def _kron_pair(m):
    i, j = AB[m.opt % 5]
    return {"x": m.x(True, p=i*j), "loc": m.any(True, "loc", (i*j,)),
            "A": m.cov(True, "A", i), "B": m.cov(True, "B", j)}


op("kronecker student cost", _kron_pair,
   lambda a, opt: ES._generate_cost_function_kronecker_student(
       a["x"], 3., a["loc"] if opt % 2 else None)(a["A"], a["B"]))
op("kronecker student gradient", _kron_pair,
   lambda a, opt: ES._generate_egrad_function_kronecker_student(
       a["x"], *AB[opt % 5], 3., a["loc"] if opt % 2 else None)(
           a["A"], a["B"]))
op("empirical covariance", lambda m: {"x": m.x(True)},
   lambda a, opt: EB.complex_empirical_covariance(
       a["x"], assume_centered=bool(opt % 2)))
for _n in NORMS:
    op("normalisation " + _n, lambda m: {"c": m.cov(m.opt % 2 > 0)},
       lambda a, opt, _n=_n: EC.get_normalisation_function(_n)(a["c"]))
for _c, _f in ((False, MC.Tyler_cost_real), (True, MC.Tyler_cost_complex)):
    op("cost " + _f.__name__, lambda m, _c=_c: {"x": m.x(_c), "q": m.cov(_c)},
       lambda a, opt, _f=_f: _f(a["x"], a["q"]))

# laws
NORMAL, STUDENT = PR.complex_multivariate_normal, PR.complex_multivariate_t


def _law(m):
    return {"x": m.x(True), "loc": m.vec(True), "s": m.cov(True)}


for _n in ("pdf", "logpdf"):
    op("normal " + _n, _law, lambda a, opt, _n=_n: getattr(NORMAL, _n)(
        a["x"], a["loc"], a["s"]))
    op("frozen normal " + _n, _law, lambda a, opt, _n=_n: getattr(NORMAL(
        a["loc"], a["s"]), _n)(a["x"]))
    op("student " + _n, _law, lambda a, opt, _n=_n: getattr(STUDENT, _n)(
        a["x"], a["loc"], a["s"], 3.))
    op("frozen student " + _n, _law, lambda a, opt, _n=_n: getattr(STUDENT(
        a["loc"], a["s"], 3.), _n)(a["x"]))
op("normal entropy", _law, lambda a, opt: NORMAL.entropy(a["loc"], a["s"]))
op("student entropy", _law, lambda a, opt: STUDENT.entropy(
    a["loc"], a["s"], 3.))
op("normal rvs", _law, lambda a, opt: NORMAL.rvs(
    a["loc"], a["s"], size=1+opt % 4, random_state=opt))
op("student rvs", _law, lambda a, opt: STUDENT.rvs(
    a["loc"], a["s"], 3., size=1+opt % 4, random_state=opt))
op("frozen normal rvs", _law, lambda a, opt: NORMAL(a["loc"], a["s"]).rvs(
    1+opt % 4, random_state=opt))

# mappings and matrix functions
op("arraytoreal", lambda m: {"x": m.x(True) if m.opt % 2 else m.vec(True)},
   lambda a, opt: MP.arraytoreal(a["x"]))
op("arraytocomplex", lambda m: {"x": m.x(False, p=2*m.p)},
   lambda a, opt: MP.arraytocomplex(a["x"]))
op("covariancetoreal", lambda m: {"c": m.cov(True)},
   lambda a, opt: MP.covariancetoreal(a["c"]))
op("covariancetocomplex", lambda m: {"c": MP.covariancetoreal(m.cov(True))},
   lambda a, opt: MP.covariancetocomplex(a["c"]))
op("covariancestoreal", lambda m: {"c": np.array([m.cov(True, t)
                                                  for t in "abc"])},
   lambda a, opt: MP.covariancestoreal(a["c"]))
op("covariancestocomplex", lambda m: {"c": MP.covariancestoreal(np.array(
    [m.cov(True, t) for t in "abc"]))},
   lambda a, opt: MP.covariancestocomplex(a["c"]))
for _f in (MP.iscovariance, MP.check_Hermitian, MP.check_Symmetric):
    op(_f.__name__, lambda m: {"c": m.cov(True) if m.opt % 2 else
                               m.any(m.opt % 3 > 0)},
       lambda a, opt, _f=_f: bool(_f(a["c"])))
for _f in (L.sqrtm, L.logm, L.expm, L.invsqrtm):
    op(_f.__name__, lambda m: {"c": m.cov(m.opt % 2 > 0)},
       lambda a, opt, _f=_f: _f(a["c"], autograd=opt % 3 == 0))
op("powm", lambda m: {"c": m.cov(m.opt % 2 > 0)},
   lambda a, opt: L.powm(a["c"], [-1, .5, 2][opt % 3]))
for _f in (L.hermitian, L.multiherm, L.multihconj, L.vec, L.vech):
    op(_f.__name__, lambda m: {"c": m.any(m.opt % 2 > 0)},
       lambda a, opt, _f=_f: _f(a["c"]))
op("unvec", lambda m: {"v": m.any(m.opt % 2 > 0, shape=(m.p**2,))},
   lambda a, opt: L.unvec(a["v"]))
op("unvech", lambda m: {"v": m.any(m.opt % 2 > 0, shape=(
    m.p*(m.p+1)//2,))}, lambda a, opt: L.unvech(a["v"]))


# manifolds
def _geo(m, unit):
    k = 1 + m.opt % 2
    p = m.p + (1 if unit else 0)
    x = geo.points(m.key, "x", p, k, .7, 2., unit)
    y = geo.points(m.key, "y", p, k, .7, 2., unit)
    u = geo.tangents(m.key, "u", x, .7, unit)
    v = geo.tangents(m.key, "v", x, .9, unit)
    g = gen.normal(m.key, "g", x.shape, True)
    h = gen.normal(m.key, "h", x.shape, True)
    d = {"x": x, "y": y, "u": u, "v": v, "g": g, "h": h}
    return {n: a[0] if k == 1 else a for n, a in d.items()}


def _pos(m):
    k = 1 + m.opt % 2
    d = {n: gen.normal(m.key, n, (m.p, k)) for n in "uvgh"}
    d.update({n: np.exp(gen.normal(m.key, n, (m.p, k))) for n in "xy"})
    d["u"] = d["u"]*d["x"]*.3
    return d


def _prod(m):
    A = _geo(m, True)
    B = _geo(m, False)
    return {n: [A[n], B[n]] for n in A}


CALLS = {"inner": "xuv", "norm": "xu", "proj": "xg", "egrad2rgrad": "xg",
         "ehess2rhess": "xghu", "exp": "xu", "retr": "xu", "log": "xy",
         "transp": "xyu", "dist": "xy", "zerovec": "x"}
MAN = {"positive vectors": (lambda a: MM.StrictlyPositiveVectors(
           a["x"].shape[0], a["x"].shape[1]), _pos, ()),
       "HPD": (lambda a: MM.HermitianPositiveDefinite(
           a["x"].shape[-1], 1 if a["x"].ndim == 2 else len(a["x"])),
           lambda m: _geo(m, False), ()),
       "SHPD": (lambda a: MM.SpecialHermitianPositiveDefinite(
           a["x"].shape[-1], 1 if a["x"].ndim == 2 else len(a["x"])),
           lambda m: _geo(m, True), ("ehess2rhess",)),
       "Kronecker": (lambda a: MM.KroneckerHermitianPositiveElliptical(
           a["x"][0].shape[-1], a["x"][1].shape[-1], 1-1/(
               4+a["x"][0].shape[-1]*a["x"][1].shape[-1]),
           1 if a["x"][0].ndim == 2 else len(a["x"][0])), _prod,
           ("ehess2rhess", "transp", "exp", "log")),
       "weighted": (lambda a: MM.WeightedProduct(
           (MM.SpecialHermitianPositiveDefinite(
               a["x"][0].shape[-1], 1 if a["x"][0].ndim == 2 else
               len(a["x"][0])),
            MM.HermitianPositiveDefinite(
               a["x"][1].shape[-1], 1 if a["x"][1].ndim == 2 else
               len(a["x"][1]))), (.5, 2.)), _prod,
           ("ehess2rhess",))}


def manifold(name, make, a):
    shapes = tuple(np.shape(t) for t in leaves(a["x"]))
    return kept_object((name, shapes), lambda: make(a), True)


for _n, (_m, _mk, _skip) in MAN.items():
    for _call, _args in CALLS.items():
        if _call not in _skip:
            op("%s %s" % (_n, _call), _mk,
               lambda a, opt, _m=_m, _call=_call, _args=_args, _n=_n: getattr(
                   manifold(_n, _m, a), _call)(*[a[t] for t in _args]))
    op("%s randvec" % _n, _mk,
       lambda a, opt, _m=_m, _n=_n: manifold(_n, _m, a).randvec(a["x"]),
       random=True)


# transformers
def _trials(m, cplx):
    return {"x": np.array([m.x(cplx, t, n=m.n+2*m.p) for t in "abc"])}


for _k, _c in (("tyler", False), ("cstudent", True), ("empirical", True)):
    def _run(a, opt, _k=_k):
        cls, _, space = c19.KINDS[_k]
        p = {n: v[0] for n, v in space.items()}
        if "tol" in p:
            p.update(tol=-1., iter_max=3)
        return EB.CovariancesEstimation(cls(**p)).transform(a["x"])
    op("covariances " + _k, lambda m, _c=_c: _trials(m, _c), _run)

    def _run(a, opt, _k=_k):
        cls, _, space = c19.KINDS[_k]
        p = {n: v[0] for n, v in space.items()}
        if "tol" in p:
            p.update(tol=-1., iter_max=3)
        f = EB.FeaturesEstimation(cls(**p)).transform(a["x"])
        return {"export": f.export(), "vectorize": f.vectorize()}
    op("features " + _k, lambda m, _c=_c: _trials(m, _c), _run)


def _append(a, opt):
    f = EB._FeatureArray(a["c"].shape[1:], a["v"].shape[1:])
    for _ in range(3):
        f.append([a["c"], a["v"]])
    return {"export": f.export(), "vec": f.vectorize(),
            "item": f[1].export()}


op("feature array", lambda m: {"c": np.array([m.cov(True, t) for t in "ab"]),
                               "v": m.any(False, shape=(2, m.p))}, _append)

CASE = st.fixed_dictionaries({
    "op": st.sampled_from(sorted(OPS)), "key": gen.KEY,
    "p": st.integers(1, PM), "n": st.integers(4, 9),
    "opt": st.integers(0, 59), "seed": st.integers(0, 2**32-1)})


def prepare(c):
    make, run, o = OPS[c["op"]]
    REUSE.update(on=False, objects={})
    grad = o.get("gradient", lambda _: False)(c)
    return make(Make(c)), run, o, grad


def call(c, run, args, seed, **k):
    np.random.seed(seed % 2**32)
    return sut(run, args, c["opt"], **k)


def inputs_intact(args, kept, what):
    la, lb = leaves(args), leaves(kept)
    for u, v in zip(la, lb):
        if isinstance(v, np.ndarray):
            need(u.shape == v.shape and u.dtype == v.dtype and
                 np.array_equal(u, v), lambda: "%s modified an argument by "
                 "%.3g" % (what, np.max(np.abs(u-v))))


@sub("C28", "inputs_intact_and_repeatable", CASE, quick=2500, shards=4,
     rule="operation on arrays of size > 1")
def _(c, rec):
    args, run, o, grad = prepare(c)
    kept = copy.deepcopy(args)
    r = call(c, run, args, c["seed"])
    inputs_intact(args, kept, c["op"])
    r = copy.deepcopy(r)
    # same arrays again, whatever the global generator
    s = call(c, run, args, c["seed"] if o.get("random") else c["seed"]+1)
    inputs_intact(args, kept, c["op"])
    identical(s, r, "%s repeated" % c["op"])
    # equal values held elsewhere; operations in between
    other = dict(c, key=c["key"]//2+1, opt=c["opt"]//2)
    a2 = OPS[c["op"]][0](Make(other))
    call(other, run, a2, c["seed"]+2)
    t = call(c, run, kept, c["seed"] if o.get("random") else c["seed"]+3)
    near(t, r, 2e-3 if grad else 1e-9, "%s after another call" % c["op"])
    rec.nt(any(isinstance(v, np.ndarray) and v.size > 1
               for v in leaves(args)))
    rec.label(c["op"])


@sub("C28", "contents_replaced", CASE, quick=1500, shards=4,
     rule="operation on arrays of size > 1")
def _(c, rec):
    """the result follows the contents of an array, not which array it is"""
    args, run, o, grad = prepare(c)
    new = OPS[c["op"]][0](Make(dict(c, key=c["key"]//3+7)))
    want = copy.deepcopy(call(c, run, copy.deepcopy(new), c["seed"]))
    REUSE.update(on=True, objects={})     # one manifold, one estimator
    call(c, run, args, c["seed"]+1)
    la, ln = leaves(args), leaves(new)
    arrays = [(u, v) for u, v in zip(la, ln) if isinstance(v, np.ndarray)]
    if any(u.shape != v.shape or u.dtype != v.dtype for u, v in arrays):
        return
    for u, v in arrays:
        u[...] = v
    got = call(c, run, args, c["seed"])
    near(got, want, 2e-3 if grad else 1e-9,
         "%s after the contents of its arguments were replaced" % c["op"])
    rec.nt(any(v.size > 1 for _, v in arrays))
    rec.label(c["op"])


@sub("C28", "global_generator_untouched", CASE, quick=600, shards=2,
     rule="operation that draws nothing")
def _(c, rec):
    args, run, o, grad = prepare(c)
    if o.get("random") or "student" in c["op"] and "rvs" in c["op"]:
        return
    np.random.seed(c["seed"])
    np.random.standard_normal()
    before = np.random.get_state()
    sut(run, args, c["opt"])
    after = np.random.get_state()
    need(before[2:] == after[2:] and np.array_equal(before[1], after[1]),
         "%s changes the state of the global generator" % c["op"])
    rec.nt()
    rec.label(c["op"])


@sub("C28", "memory_layout", st.tuples(CASE, st.lists(
    st.sampled_from(gen.LAYOUTS + ["swapped", "big"]), min_size=8,
    max_size=8)).map(lambda t: dict(t[0], layouts=t[1])),
    quick=2500, shards=4, rule="some argument not in C order")
def _(c, rec):
    args, run, o, grad = prepare(c)
    ref = call(c, run, args, c["seed"])
    k = [0]

    def lay(a):
        kind = c["layouts"][k[0] % 8]
        k[0] += 1
        if kind == "swapped":              # a transposed view of a bigger one
            b = np.zeros(a.T.shape + (2,), a.dtype)
            b[..., 1] = a.T
            return b[..., 1].T
        if kind == "big":                  # window into a larger array
            b = np.full(tuple(n+3 for n in a.shape), np.nan, a.dtype)
            v = b[tuple(slice(2, 2+n) for n in a.shape)]
            v[...] = a
            return v
        return gen.layout(a, kind)
    new = walk(args, lay)
    kept = copy.deepcopy(new)
    r = call(c, run, new, c["seed"])
    inputs_intact(new, kept, c["op"])
    near(r, ref, 2e-3 if grad else 1e-8, "%s with layouts %s" % (
        c["op"], c["layouts"][:k[0]]))
    rec.nt(any(l != "C" for l in c["layouts"][:k[0]]))
    rec.label(c["op"])


VERB = sorted(n for n, (_, _, o) in OPS.items() if o.get("verbosity"))


@sub("C28", "display_changes_nothing", st.tuples(CASE, st.sampled_from(
    [0]*5 + list(range(20)))).map(
    lambda t: dict(t[0], op=VERB[t[0]["key"] % len(VERB)],
                   opt=t[0]["opt"] + CONTROLS*t[1])), quick=600, shards=4,
    rule="more than one iteration")
def _(c, rec):
    args, run, o, grad = prepare(c)
    kept = copy.deepcopy(args)
    kron = "kronstudent" in c["op"]
    r = call(c, run, args, c["seed"], verbosity=0 if kron else False)
    r = copy.deepcopy(r)
    s = call(c, run, args, c["seed"], verbosity=(1 + c["opt"] % 2) if kron
             else True)
    identical(s, r, "%s with the display on" % c["op"])
    inputs_intact(args, kept, c["op"])
    rec.nt(c["opt"] % 20 != 0)
    rec.label(c["op"])


@sub("C28", "random_start_reaches_the_same_estimate", st.fixed_dictionaries({
    "cplx": st.booleans(), "p": st.integers(1, 4), "n": st.integers(6, 14),
    "key": gen.KEY, "opt": st.integers(0, 3),
    "seeds": st.lists(st.integers(0, 2**32-1), min_size=2, max_size=2)}),
    quick=60, shards=4, rule="p > 1 and seeds differ")
def _(c, rec):
    m = Make(c)
    x = m.x(c["cplx"])
    f = EC.ComplexTylerShapeMatrix if c["cplx"] else EC.TylerShapeMatrix
    res = []
    for s in c["seeds"]:
        np.random.seed(s)
        e = sut(f, method="natural gradient", normalisation="trace")
        sut(e.fit, x)
        res.append(e.covariance_)
    e = mest.dist(res[0], res[1], True)
    need(e <= 1e-3, lambda: "estimates from two random starts differ by %.3g"
         % e)
    rec.nt(c["p"] > 1 and c["seeds"][0] != c["seeds"][1])
