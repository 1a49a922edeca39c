"""C31: the number type and the container of values do not matter."""
import numpy as np
from hypothesis import strategies as st

import robuststats.estimation.base as B
import robuststats.estimation.covariance as C
import robuststats.estimation.structured as S
import robuststats.models.cost as CO
import robuststats.models.manifolds as MF
import robuststats.models.mappings as M
import robuststats.models.probability as P
import robuststats.utils.linalg as L
from robuststats.online.estimation import \
    StochasticGradientCovarianceEstimator as SG

from .. import ests, gen
from ..core import META, need, sub, sut

META["C31"] = {"assumptions": [
    "values are integers (or Gaussian integers) of absolute value at most "
    "100, and are representable in every type tried; in single precision "
    "results agree to 1e-3, else to 1e-9",
    "matrices are of moderate condition (below about 1e4)",
    "lists and tuples are given where the interface says array-like and the "
    "pinned commit accepts them: laws, estimator classes, matrix functions of "
    "an eigendecomposition, starting points of the natural gradient",
    "manifold operations on 8 and 16 bit integers, whose products overflow in "
    "NumPy, are not tried",
    "functions that only rearrange entries (vec, vech, mappings) may keep the "
    "type: values are compared, not types"]}

REAL = ["int8", "int16", "int32", "int64", "uint8", "uint16", ">f8", ">i4",
        "float32", "float64"]
CPLX = ["complex64", ">c16", "complex128"]
BOXES = ["list", "tuple", "nested"]


def kinds(cplx, boxes=False):
    return st.sampled_from((CPLX if cplx else REAL) + (BOXES if boxes else []))


def conv(a, kind):
    a = np.asarray(a)
    if kind == "list":
        return a.tolist()
    if kind == "tuple":
        return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(
            a.tolist()) if a.ndim == 1 else a.tolist()
    if kind == "nested":                      # a list of arrays
        return list(a) if a.ndim else a.tolist()
    if np.iscomplexobj(a) and kind not in CPLX:
        kind = {"float32": "complex64", ">f8": ">c16"}.get(kind, "complex128")
    elif not np.iscomplexobj(a) and kind in CPLX:
        kind = {"complex64": "float32", ">c16": ">f8"}.get(kind, "int64")
    if kind in ("uint8", "uint16") and np.min(a, initial=0) < 0:
        kind = {"uint8": "int8", "uint16": "int16"}[kind]
    out = a.astype(kind)
    assert np.array_equal(out, a)
    return out


def flat(r):
    """every number of a result, in order"""
    if isinstance(r, (tuple, list)):
        return np.concatenate([flat(q) for q in r] or [np.zeros(0)])
    r = np.asarray(r)
    need(r.dtype.kind in "biufc", lambda: "result of type %s" % r.dtype)
    return np.ravel(r).astype(complex)


def shape(r):
    if isinstance(r, (tuple, list)):
        return [shape(q) for q in r]
    return np.shape(r)


def compare(f, args, ks, rec, what, tol=1e-9):
    """f of the doubles and f of the same values in other types"""
    args = [np.asarray(a) for a in args]
    ref = sut(f, *[a.astype(complex if np.iscomplexobj(a) else float)
                   for a in args])
    other = [conv(a, k) for a, k in zip(args, ks)]
    keep = [repr(o) for o in other]
    got = sut(f, *other)
    need([repr(o) for o in other] == keep, "%s modifies its arguments" % what)
    types = [str(getattr(o, "dtype", type(o).__name__)) for o in other]
    need(shape(got) == shape(ref), lambda: "%s of %s has shape %s, not %s" % (
        what, types, shape(got), shape(ref)))
    single = any(t in ("float32", "complex64") for t in types)
    tol = 1e-3 if single else tol
    a, b = flat(ref), flat(got)
    need(np.all(np.isfinite(a)), lambda: "%s of doubles is not finite" % what)
    d = np.max(np.abs(a - b), initial=0)/max(1e-12, np.max(np.abs(a),
                                                           initial=0), 1e-3)
    need(d <= tol, lambda: "%s of %s differs by %.3g from that of doubles" % (
        what, types, d))
    rec.nt(any(t not in ("float64", "complex128") for t in types))
    rec.label(what, *types)


def ints(key, tag, shape, cplx, lo, hi):
    g = gen.rng(key, tag)
    x = g.integers(lo, hi + 1, shape).astype(float)
    return x + 1j*g.integers(lo, hi + 1, shape) if cplx else x


def spd(key, tag, p, cplx, signed=True):
    """integers, diagonally dominant"""
    x = np.triu(ints(key, tag, (p, p), cplx, -1 if signed else 0, 1), 1)
    return x + x.conj().T + np.diag(2*p + 1 + ints(
        key, tag + "d", p, False, 0, 6))


def samples(key, n, p, cplx, signed):
    x = ints(key, "x", (n, p), cplx, -100 if signed else 0, 100)
    x[:, 0] += x[:, 0] == 0
    return x


# ---------------------------------------------------------------- laws
@st.composite
def law(draw):
    cx, cm, cc = (draw(st.booleans()) for _ in range(3))
    return {"p": draw(st.integers(1, 5)), "n": draw(st.integers(1, 8)),
            "key": draw(gen.KEY), "cx": cx, "cm": cm, "cc": cc,
            "signed": draw(st.booleans()), "t": draw(st.booleans()),
            "df": draw(st.sampled_from([1, 2, 3, 10])),
            "dfkind": draw(st.sampled_from(["int", "float", "int64",
                                            "float32", "int8"])),
            "fn": draw(st.sampled_from(["logpdf", "pdf", "entropy", "rvs",
                                        "logpdf", "cdf"])),
            "frozen": draw(st.booleans()), "seed": draw(st.integers(0, 999)),
            "kx": draw(kinds(cx, True)), "km": draw(kinds(cm, True)),
            "kc": draw(kinds(cc, True))}


@sub("C31", "laws", law(), quick=500, rule="a type other than double")
def _(c, rec):
    p = 1 if c["fn"] == "cdf" else c["p"]
    x = ints(c["key"], "x", (c["n"], p), c["cx"], -9 if c["signed"] else 0, 9)
    mean = ints(c["key"], "m", p, c["cm"], -9 if c["signed"] else 0, 9)
    cov = spd(c["key"], "c", p, c["cc"], c["signed"])
    law = P.complex_multivariate_t if c["t"] else P.complex_multivariate_normal
    df = {"int": int, "float": float}.get(c["dfkind"])
    df = df(c["df"]) if df else np.dtype(c["dfkind"]).type(c["df"])
    fn = c["fn"]
    if fn in ("entropy", "cdf") and c["t"]:
        fn = "logpdf"             # the cdf of the t law is a random quadrature

    def run(x, mean, cov):
        par = (mean, cov, df) if c["t"] else (mean, cov)
        if fn == "rvs":
            kw = dict(size=c["n"], random_state=c["seed"])
            return law(*par).rvs(**kw) if c["frozen"] else law.rvs(*par, **kw)
        if fn == "entropy":
            return law(*par).entropy() if c["frozen"] else law.entropy(*par)
        f = getattr(law(*par), fn) if c["frozen"] else (
            lambda x: getattr(law, fn)(x, *par))
        return f(x)
    compare(run, [x, mean, cov], [c["kx"], c["km"], c["kc"]], rec,
            ("t " if c["t"] else "normal ") + fn,
            1e-3 if fn == "cdf" else 1e-9)


# ---------------------------------------------------------------- estimators
def run_steps(f, **fixed):
    return lambda x, *init: f(x, tol=-1, iter_max=4, **dict(
        fixed, **({"init": init[0]} if init else {})))[0]


FUNCS = {
    "student": (0, run_steps(C.student_t_mle_fixed_point, df=3.)),
    "huber": (0, run_steps(C.huber_m_estimator_fixed_point, q=.9)),
    "tyler": (0, run_steps(C.tyler_shape_matrix_fixedpoint)),
    "natural": (0, lambda x, *i: C.tyler_shape_matrix_naturalgradient(
        x, init=i[0] if i else np.eye(x.shape[1]), normalisation="trace")[0]),
    "empirical": (1, B.complex_empirical_covariance),
    "empirical centred": (1, lambda x: B.complex_empirical_covariance(
        x, assume_centered=True)),
    "complex student": (1, run_steps(C.complex_student_t_mle_fixed_point,
                                     df=3.)),
    "complex huber": (1, run_steps(C.complex_huber_m_estimator_fixed_point,
                                   q=.9)),
    "complex tyler": (1, run_steps(C.complex_tyler_shape_matrix_fixedpoint)),
    "complex natural": (1, lambda x, *i:
                        C.complex_tyler_shape_matrix_naturalgradient(
                            x, init=i[0] if i else np.eye(
                                x.shape[1], dtype=complex),
                            normalisation="trace")[0]),
}
CLASSES = {
    "Student": (0, lambda **k: C.CenteredStudentMLE(3., **k)),
    "Huber": (0, lambda **k: C.HuberMEstimator(.9, **k)),
    "Tyler": (0, lambda **k: C.TylerShapeMatrix(**k)),
    "ComplexStudent": (1, lambda **k: C.ComplexCenteredStudentMLE(3., **k)),
    "ComplexHuber": (1, lambda **k: C.ComplexHuberMEstimator(.9, **k)),
    "ComplexTyler": (1, lambda **k: C.ComplexTylerShapeMatrix(**k)),
    "ComplexEmpirical": (1, lambda **k: B.ComplexEmpiricalCovariance()),
}


@st.composite
def data(draw, what, boxes):
    name = draw(st.sampled_from(sorted(what)))
    cplx = bool(what[name][0])
    return {"name": name, "p": draw(st.integers(2, 6)),
            "n": draw(st.integers(3, 40)), "key": draw(gen.KEY),
            "signed": draw(st.booleans()), "kx": draw(kinds(cplx, boxes)),
            "out": draw(st.sampled_from(["covariance_", "precision_",
                                         "mahalanobis", "error_norm"])),
            "ki": draw(kinds(cplx, "natural" in name)),
            # the classes take real data for representations of complex data
            "real": what is FUNCS and cplx and draw(st.integers(0, 3)) == 0,
            "kr": draw(kinds(False, boxes)),
            "init": draw(st.booleans())}


def values(c, cplx):
    """the samples and their type; complex operations also take real data"""
    x = samples(c["key"], c["n"] + 3*c["p"], c["p"], cplx and not c["real"],
                c["signed"])
    return x, c["kr"] if c["real"] else c["kx"]


@sub("C31", "estimation_functions", data(FUNCS, False), quick=400, shards=2,
     rule="a type other than double")
def _(c, rec):
    cplx, f = FUNCS[c["name"]]
    p = c["p"]
    x, kx = values(c, cplx)
    ks, args = [kx], [x]
    natural = "natural" in c["name"]
    if c["init"] and "empirical" not in c["name"]:
        args.append(spd(c["key"], "i", p, cplx, c["signed"]))
        ks.append(c["ki"])
    # the solver stops within 1e-6 of the optimum, in which direction may vary
    compare(f, args, ks, rec, c["name"] + (" from init" if len(args) > 1
                                           else ""),
            1e-5 if natural else 1e-9)


@sub("C31", "estimator_classes", data(CLASSES, True), quick=400,
     rule="a type other than double")
def _(c, rec):
    cplx, make = CLASSES[c["name"]]
    p = c["p"]
    x, kx = values(c, cplx)

    def run(x):
        e = make(tol=-1, iter_max=4).fit(x)
        if c["out"] == "mahalanobis":
            return e.mahalanobis(x)
        if c["out"] == "error_norm":
            return e.error_norm(np.eye(p))
        return getattr(e, c["out"])
    compare(run, [x], [kx], rec, c["name"] + "." + c["out"])


@st.composite
def kro(draw):
    cplx = draw(st.booleans())
    return {"a": draw(st.integers(1, 3)), "b": draw(st.integers(1, 3)),
            "n": draw(st.integers(3, 20)), "key": draw(gen.KEY),
            "cplx": cplx, "signed": draw(st.booleans()),
            "kx": draw(kinds(cplx)), "kb": draw(kinds(True, True)),
            "which": draw(st.sampled_from(["mm", "MM", "student"]))}


@sub("C31", "structured", kro(), quick=150, rule="a type other than double")
def _(c, rec):
    a, b = c["a"], c["b"]
    cplx = c["cplx"] or c["which"] != "mm"
    x = samples(c["key"], c["n"] + 3*a*b, a*b, cplx, c["signed"])
    if c["which"] == "mm":
        compare(lambda x: sut(S.estimation_cov_kronecker_MM, x, a, b, tol=-1,
                              iter_max=4)[:2], [x], [c["kx"]], rec, "mm")
    elif c["which"] == "MM":
        compare(lambda x: S.KroneckerEllipticalMM(
            a, b, tol=-1, iter_max=4).fit(x).covariance_, [x], [c["kb"]], rec,
            "KroneckerEllipticalMM")
    else:
        compare(lambda x: S.KroneckerStudent(a, b, 3.).fit(x).covariance_,
                [x], [c["kb"]], rec, "KroneckerStudent", 1e-4)


@st.composite
def onl(draw):
    return {"p": draw(st.integers(2, 5)), "n": draw(st.integers(1, 20)),
            "key": draw(gen.KEY), "kx": draw(kinds(True, True)),
            "ki": draw(kinds(True)), "batches": draw(st.integers(1, 3)),
            "signed": draw(st.booleans()),
            "lr": draw(st.sampled_from([.1, .01, 1e-3]))}


@sub("C31", "online", onl(), quick=150, rule="a type other than double")
def _(c, rec):
    p = c["p"]
    x = samples(c["key"], c["n"]*c["batches"], p, True, c["signed"])

    def run(x, init):
        e = SG(MF.HermitianPositiveDefinite(p),
               lambda X, Q: ests.rgrad(np.asarray(X), Q)/len(X), c["lr"])
        e.fit(x, init=init)
        return e.covariance_
    compare(run, [x, spd(c["key"], "i", p, True)], [c["kx"], c["ki"]], rec,
            "online")


# ---------------------------------------------------------------- functions
MATRIX = {
    "sqrtm": L.sqrtm, "logm": L.logm, "invsqrtm": L.invsqrtm,
    "expm": lambda a: L.expm(a/20 if isinstance(a, np.ndarray) else a),
    "powm": lambda a: L.powm(a, .3), "hermitian": L.hermitian,
    "multiherm": L.multiherm, "vec": L.vec, "vech": L.vech,
    "unvech": lambda a: L.unvech(L.vech(a)), "unvec": lambda a: L.unvec(
        L.vec(a)), "unit_determinant": L.unit_determinant,
    "covariancetoreal": M.covariancetoreal, "arraytoreal": M.arraytoreal,
    "covariancetocomplex": M.covariancetocomplex,
    "arraytocomplex": M.arraytocomplex,
}
EIG = ("sqrtm", "logm", "invsqrtm", "powm")


@st.composite
def mat(draw):
    cplx = draw(st.booleans())
    name = draw(st.sampled_from(sorted(MATRIX)))
    return {"name": name, "p": draw(st.integers(1, 6)), "cplx": cplx,
            "key": draw(gen.KEY), "signed": draw(st.booleans()),
            "k": draw(kinds(cplx, name in EIG))}


@sub("C31", "matrix_functions", mat(), quick=500,
     rule="a type other than double")
def _(c, rec):
    if c["name"].endswith("tocomplex"):       # of a real representation
        a = spd(c["key"], "a", c["p"], True)
        a = np.block([[a.real, -a.imag], [a.imag, a.real]])
    else:
        a = spd(c["key"], "a", c["p"], c["cplx"], c["signed"])
    compare(MATRIX[c["name"]], [a], [c["k"]], rec, c["name"])


@st.composite
def cost(draw):
    cplx = draw(st.booleans())
    return {"p": draw(st.integers(1, 6)), "n": draw(st.integers(1, 30)),
            "cplx": cplx, "key": draw(gen.KEY), "signed": draw(st.booleans()),
            "kx": draw(kinds(cplx)), "kc": draw(kinds(cplx)),
            "vector": draw(st.booleans())}


@sub("C31", "costs", cost(), quick=200, rule="a type other than double")
def _(c, rec):
    x = samples(c["key"], c["n"], c["p"], c["cplx"], c["signed"])
    s = spd(c["key"], "c", c["p"], c["cplx"], c["signed"])
    f = CO.Tyler_cost_complex if c["cplx"] else CO.Tyler_cost_real
    compare(lambda x, s: f(x, s, c["vector"]), [x, s], [c["kx"], c["kc"]],
            rec, "cost")


OPS = {"exp": "xu", "log": "xy", "retr": "xu", "dist": "xy", "norm": "xu",
       "egrad2rgrad": "xu", "transp": "xyu", "proj": "xu", "inner": "xuv"}


@st.composite
def geo(draw):
    cplx = draw(st.booleans())
    return {"man": draw(st.sampled_from(["spv", "hpd", "shpd"])),
            "op": draw(st.sampled_from(sorted(OPS))),
            "n": draw(st.integers(1, 5)), "k": draw(st.sampled_from(
                [1, 1, 2, 3])),
            "key": draw(gen.KEY), "cplx": cplx, "signed": draw(st.booleans()),
            "ks": [draw(kinds(cplx)) for _ in range(3)]}


@sub("C31", "manifolds", geo(), quick=500, rule="a type other than double")
def _(c, rec):
    n, k, key = c["n"], c["k"], c["key"]
    # NumPy's products of 8 and 16 bit integers overflow, and their logarithm
    # is of less than single precision
    c = dict(c, ks=[{"8": "int32", "16": "int64"}.get(
        q.split("int")[-1], q) for q in c["ks"]])
    if c["man"] == "spv":
        man = MF.StrictlyPositiveVectors(n, k)
        v = {t: ints(key, t, (n, k), False, 1, 9) for t in "xy"}
        v.update((t, ints(key, t, (n, k), False, -5, 5)) for t in "uv")
    else:
        man = (MF.HermitianPositiveDefinite if c["man"] == "hpd" else
               MF.SpecialHermitianPositiveDefinite)(n, k)
        v = {t: np.stack([spd(key, t + str(i), n, c["cplx"], c["signed"])
                          for i in range(k)]) for t in "xy"}
        for t in "uv":
            v[t] = v["x"] - np.stack([spd(key, t + str(i), n, c["cplx"])
                                      for i in range(k)])
        if k == 1:
            v = {t: a[0] for t, a in v.items()}
    compare(getattr(man, c["op"]), [v[t] for t in OPS[c["op"]]], c["ks"], rec,
            "%s.%s" % (c["man"], c["op"]))
