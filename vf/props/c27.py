"""C27: invalid requests are refused, valid ones accepted."""
import copy
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from robuststats.estimation import base as EB
from robuststats.estimation import covariance as EC
from robuststats.estimation import structured as ES
from robuststats.models import cost as MC
from robuststats.utils.checking import check_positive, check_type, check_value

from .. import gen
from ..core import META, arr, need, rejects, same, sub, sut
from . import c19

META["C27"] = {"assumptions": [
    "which exception refuses a request is only checked where the code "
    "documents it (checking helpers, unknown method, degrees of freedom)",
    "after a refused fit the earlier results are compared for data of the "
    "same dimension, or a dimension the factor sizes do not match"]}

KINDS = {k: v for k, v in c19.KINDS.items()}
P = c19.P


@st.composite
def configured(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    space = KINDS[kind][2]
    return {"kind": kind, "key": draw(gen.KEY),
            "idx": {k: draw(st.integers(0, len(v)-1))
                    for k, v in sorted(space.items()) if k != "verbosity"},
            "n": draw(st.integers(14, 24)),
            "layout": draw(st.sampled_from(gen.LAYOUTS))}


def params(c):
    space = KINDS[c["kind"]][2]
    p = {k: space[k][i] for k, i in c["idx"].items()}
    if "verbosity" in space:
        p["verbosity"] = space["verbosity"][0]
    return c19.kw(p)


def build(c, **over):
    p = params(c)
    p.update(over)
    return sut(KINDS[c["kind"]][0], **p)


def data(c, tag="x", p=P, n=None):
    n = n or c["n"]
    cplx = KINDS[c["kind"]][1]
    return gen.normal(c["key"], tag, (n, p), cplx) @ gen.mixing(
        c["key"], "m", p, cplx)


def fit_args(c):
    if c["kind"] == "online":
        return {"init": gen.cov({"key": c["key"], "kind": "rand", "logc": .5,
                                 "logs": 0}, P, True)}
    return {}


def fit(c, e, x):
    np.random.seed(7)
    return sut(e.fit, x, **fit_args(c))


BAD = ["nan", "inf", "-inf", "no rows", "no columns", "1-D", "3-D", "0-D",
       "text", "none", "other kind"]


def spoil(c, bad, x, i, j, part):
    x = np.array(x)
    v = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}.get(bad)
    if v is not None:
        i, j = i % x.shape[0], j % x.shape[1]
        if np.iscomplexobj(x):
            if part == 0:
                x[i, j] = complex(v, x[i, j].imag)
            elif part == 1:
                x[i, j] = complex(x[i, j].real, v)
            else:
                x[i, j] = complex(v, v)
        else:
            x[i, j] = v
        return gen.layout(x, c["layout"])
    if bad == "no rows":
        return x[:0]
    if bad == "no columns":
        return x[:, :0]
    if bad == "1-D":
        return x[:, j % x.shape[1]] if part else x[i % x.shape[0]]
    if bad == "3-D":
        return x[None] if part else x[:, :, None]
    if bad == "0-D":
        return x[0, 0]
    if bad == "text":
        return [["a"]*x.shape[1]]*len(x)
    if bad == "none":
        return None
    # complex data for a real estimator; for a complex one, real data of an
    # odd number of features, which represent no complex data
    return x[:, :3].real.copy() if np.iscomplexobj(x) else x + 1j


@st.composite
def bad_data(draw):
    c = draw(configured())
    c.update(bad=draw(st.sampled_from(BAD[:3]*3 + BAD)),
             i=draw(st.integers(0, 30)), j=draw(st.integers(0, P-1)),
             part=draw(st.integers(0, 2)), earlier=draw(st.booleans()),
             count=draw(st.sampled_from([1, 1, 2, 5])))
    if c["kind"] == "online" and c["bad"] == "other kind":
        c["bad"] = "nan"        # what data fit the gradient is the caller's
    return c


def unchanged(c, e, before, served, x, what):
    after = c19.observe(e)
    need(set(before) <= set(after), lambda: "%s: %s lost" % (
        what, set(before)-set(after)))
    for k, v in before.items():
        if v is None:
            need(after[k] is None, "%s: %s changed" % (what, k))
        else:
            same(after[k], v, "%s: %s of the earlier fit" % (what, k))
    if served is not None:
        same(sut(e.mahalanobis, x), served, "%s: Mahalanobis distances by "
             "the earlier fit" % what)


def earlier_fit(c, e):
    """-> what to compare after the refusal"""
    if not c["earlier"]:
        return {k: v for k, v in c19.observe(e).items()}, None, None
    x = data(c, "earlier")
    fit(c, e, x)
    return c19.observe(e), np.array(sut(e.mahalanobis, x)), x


@sub("C27", "data_with_invalid_entries_or_shape", bad_data(), quick=900,
     shards=3, rule="one invalid entry, not the first, after an earlier fit")
def _(c, rec):
    e = build(c)
    before, served, x0 = earlier_fit(c, e)
    x = data(c)
    y = spoil(c, c["bad"], x, c["i"], c["j"], c["part"])
    for k in range(1, c["count"]):
        if c["bad"] in BAD[:3]:
            y = spoil(c, c["bad"], y, c["i"]+7*k, c["j"]+k, c["part"])
    rejects(e.fit, y, what="fit of %s on %s data" % (c["kind"], c["bad"]),
            **fit_args(c))
    if not c["earlier"]:
        need(not hasattr(e, "covariance_"), "refused fit leaves a covariance")
    unchanged(c, e, before, served, x0, "refused fit of %s on %s data" % (
        c["kind"], c["bad"]))
    # and the estimator still works
    fit(c, e, gen.layout(x, c["layout"]))
    f = build(c)
    fit(c, f, x)
    if c["kind"] != "online" or not c["earlier"]:
        w = f.covariance_
        need(np.allclose(e.covariance_, w, rtol=1e-9,
                         atol=1e-12*np.abs(w).max()),
             "fit after a refused fit differs from a fresh one")
    rec.nt(c["bad"] in BAD[:3] and c["i"] % c["n"] and c["earlier"]
           and c["count"] == 1)
    rec.label(c["kind"], c["bad"])


@st.composite
def bad_parameter(draw):
    c = draw(configured())
    kinds = [k for k in sorted(KINDS) if k not in (
        "empirical", "real-empirical", "online")]
    c["kind"] = draw(st.sampled_from(kinds))
    space = KINDS[c["kind"]][2]
    c["idx"] = {k: draw(st.integers(0, len(v)-1))
                for k, v in sorted(space.items()) if k != "verbosity"}
    c["earlier"] = draw(st.booleans())
    c["when"] = draw(st.sampled_from(["constructor", "set_params"]))
    if "df" in space:
        c["what"] = "df"
        c["value"] = draw(st.sampled_from([0, 0., -1, -.5, -3., -1e-9]))
    elif "q" in space:
        c["what"] = "q"
        c["value"] = draw(st.sampled_from([0, 0., -.5, 1.5, 2, 1.0001,
                                           -1e-9]))
    elif "method" in space:
        c["what"] = "method"
        c["value"] = draw(st.sampled_from([
            "bcd", "gradient", "", "Fixed-point", "fixed point", "fixed",
            "natural-gradient", "natural", "fixed-point ", None, 0]))
    if "ab" in space and draw(st.booleans() if "what" in c else st.just(True)):
        c["what"] = "ab"
        c["value"] = draw(st.sampled_from(
            [[1, 1], [2, 1], [3, 1], [2, 3], [3, 3], [4, 2], [8, 1], [1, 8],
             [5, 1]]))
        c["wide"] = draw(st.booleans())
    return c


@sub("C27", "invalid_parameters", bad_parameter(), quick=600, shards=3,
     rule="parameter changed after an earlier fit")
def _(c, rec):
    over = {"a": c["value"][0], "b": c["value"][1]} if c["what"] == "ab" \
        else {c["what"]: c["value"]}
    x = data(c)
    what = "%s with %s" % (c["kind"], over)
    if c["when"] == "constructor":
        p = params(c)
        p.update(over)
        exc = NotImplementedError if c["what"] == "method" else Exception
        if c["what"] == "method":
            rejects(KINDS[c["kind"]][0], exc=exc, what=what, **p)
        else:
            def both():
                return KINDS[c["kind"]][0](**p).fit(x)
            rejects(both, what=what)
    else:
        e = build(c)
        before, served, x0 = earlier_fit(c, e)

        def change():
            e.set_params(**over)
            return e.fit(x)
        exc = NotImplementedError if c["what"] == "method" else Exception
        rejects(change, exc=exc, what="setting %s" % what)
        unchanged(c, e, before, served, x0, "refused fit of " + what)
        # valid parameters again
        sut(e.set_params, **params(c))
        fit(c, e, x)
        f = build(c)
        fit(c, f, x)
        w = f.covariance_
        need(np.allclose(e.covariance_, w, rtol=1e-9,
                         atol=1e-12*np.abs(w).max()),
             "fit after a refused one differs from a fresh one")
    rec.nt(c["when"] == "set_params" and c["earlier"])
    rec.label(c["kind"], c["what"], c["when"])


@st.composite
def mismatch_case(draw):
    a, b = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    p = draw(st.integers(1, 26).filter(lambda q: q != a*b))
    return {"a": a, "b": b, "p": p, "n": draw(st.integers(1, 12)),
            "key": draw(gen.KEY),
            "kind": draw(st.sampled_from(["mm", "student", "function"])),
            "real": draw(st.booleans()), "fitted": draw(st.booleans())}


@sub("C27", "factor_sizes_must_match", mismatch_case(), quick=500,
     rule="dimension is a multiple of a factor size, earlier fit")
def _(c, rec):
    a, b = c["a"], c["b"]
    n = c["n"] + 2*c["p"]
    x = gen.normal(c["key"], "x", (n, c["p"]), True)
    if c["real"] and c["kind"] != "function":
        x = np.hstack([x.real, x.imag])
    if c["kind"] == "function":
        rejects(ES.estimation_cov_kronecker_MM, x.real if c["real"] else x,
                a, b, exc=AttributeError, what="factor sizes %d, %d for %d "
                "features" % (a, b, c["p"]))
    else:
        e = sut(ES.KroneckerEllipticalMM, a, b) if c["kind"] == "mm" else \
            sut(ES.KroneckerStudent, a, b, 3.)
        before = None
        if c["fitted"] and a*b <= 9:
            y = gen.normal(c["key"], "y", (3*a*b+3, a*b), True)
            sut(e.fit, y)
            before = c19.observe(e), np.array(sut(e.mahalanobis, y))
        rejects(e.fit, x, exc=AttributeError, what="%s of factor sizes %d, "
                "%d for %d features" % (c["kind"], a, b, c["p"]))
        if before:
            unchanged(c, e, before[0], before[1], y, "refused fit")
            rec.nt(c["p"] % a == 0 or c["p"] % b == 0)
        else:
            need(not hasattr(e, "covariance_"), "refused fit leaves a "
                 "covariance")
    if c["kind"] == "function":
        rec.nt(c["p"] % a == 0 or c["p"] % b == 0)
    rec.label(c["kind"], "real" if c["real"] else "complex")


def as_list(x):
    return x.tolist()


VALID = ["list", "tuple rows", "float32", "integers", "one row list",
         "real represented", "big endian", "float128"]


@st.composite
def valid_case(draw):
    c = draw(configured())
    c["form"] = draw(st.sampled_from(VALID))
    return c


@sub("C27", "valid_data_are_accepted", valid_case(), quick=400, shards=2,
     rule="every case")
def _(c, rec):
    cplx = KINDS[c["kind"]][1]
    x = data(c)
    tol = 1e-9
    ref = x
    form = c["form"]
    if form == "list":
        y = x.tolist()
    elif form == "tuple rows":
        y = [tuple(r) for r in x.tolist()]
    elif form == "float32":
        y = x.astype(np.complex64 if cplx else np.float32)
        ref, tol = y.astype(x.dtype), 1e-3
    elif form == "integers":
        # complex data have no integer type: integer valued
        ref = np.round(30*x)
        y = ref if cplx else ref.astype(np.int64)
    elif form == "real represented" and cplx and c["kind"] != "online":
        y = np.hstack([x.real, x.imag])
    elif form == "big endian":
        y = x.astype(x.dtype.newbyteorder(">"))
    else:
        y = gen.layout(x, c["layout"])
    e = build(c)
    fit(c, e, y)
    f = build(c)
    fit(c, f, ref)
    need(e.covariance_.shape == (P, P), "covariance has shape %s"
         % (e.covariance_.shape,))
    w = f.covariance_
    d = np.abs(e.covariance_ - w).max()
    loose = c["kind"] == "kronstudent" or params(c).get(
        "method") == "natural gradient"
    need(d <= max(tol, 1e-3 if loose else 0)*np.abs(w).max(),
         lambda: "%s data as %s: covariance differs by %.3g" % (
             c["kind"], form, d))
    rec.nt()
    rec.label(c["kind"], form)


NUM = st.one_of(
    st.integers(-3, 3), st.floats(-1e9, 1e9), st.sampled_from(
        [0, 0.0, -0.0, float("inf"), float("-inf"), float("nan"), 5e-324,
         -5e-324, 1e308, 10**30, -10**30]))


@sub("C27", "positive_helper", st.fixed_dictionaries({
    "v": NUM.map(lambda v: v if isinstance(v, int) else float(v).hex()),
    "strict": st.sampled_from([True, False, None]),
    "as": st.sampled_from(["python", "float64", "array0", "fraction",
                           "float32"])}), quick=600,
     rule="zero, infinite, undefined or tiny value")
def _(c, rec):
    v = c["v"] if isinstance(c["v"], int) else float.fromhex(c["v"])
    f = float(v)
    if c["as"] == "float64":
        v = np.float64(v)
    elif c["as"] == "float32":
        with np.errstate(all="ignore"):
            v = np.float32(v)
        f = float(v)
    elif c["as"] == "array0":
        v = np.array(f)
    elif c["as"] == "fraction" and np.isfinite(f):
        v = Fraction(v)
    k = {} if c["strict"] is None else {"strictly": c["strict"]}
    ok = f > 0 if c["strict"] in (True, None) else f >= 0
    if ok:
        sut(check_positive, v, "the variable", **k)
    else:
        try:
            check_positive(v, "the variable", **k)
        except ValueError as e:
            need("the variable" in str(e), "message does not name the "
                 "variable: %s" % e)
        else:
            need(False, "check_positive accepts %r (strictly=%s)" % (
                v, c["strict"]))
    rec.nt(not np.isfinite(f) or abs(f) < 1e-300)
    rec.label(c["as"], "accepted" if ok else "refused")


class MyInt(int):
    pass


class MyList(list):
    pass


OBJECTS = {"int": 3, "bool": True, "float": 2.5, "str": "a", "list": [1],
           "tuple": (1,), "none": None, "float64": np.float64(1),
           "int64": np.int64(1), "array": np.zeros(2), "myint": MyInt(2),
           "mylist": MyList(), "complex": 1j, "dict": {}}


@sub("C27", "type_helper", st.fixed_dictionaries({
    "v": st.sampled_from(sorted(OBJECTS)),
    "types": st.lists(st.sampled_from(sorted(OBJECTS)), max_size=4)}),
    quick=400, rule="subclass or lookalike among the accepted types")
def _(c, rec):
    v = OBJECTS[c["v"]]
    types = [type(OBJECTS[t]) for t in c["types"]]
    if type(v) in types:
        sut(check_type, v, "the variable", types)
    else:
        try:
            check_type(v, "the variable", types)
        except TypeError as e:
            need("the variable" in str(e), "message does not name the "
                 "variable: %s" % e)
        else:
            need(False, "check_type accepts %r among %s" % (v, types))
        rec.nt(any(isinstance(v, t) for t in types))
    rec.label(c["v"])


VALUES = {k: v for k, v in OBJECTS.items() if k not in ("array",)}


@sub("C27", "value_helper", st.fixed_dictionaries({
    "v": st.sampled_from(sorted(VALUES)),
    "values": st.lists(st.sampled_from(sorted(VALUES)), max_size=5)}),
    quick=400, rule="several accepted values")
def _(c, rec):
    v, vals = VALUES[c["v"]], [VALUES[t] for t in c["values"]]
    if any(v is w or v == w for w in vals):
        sut(check_value, v, "the variable", vals)
        ok = True
    else:
        try:
            check_value(v, "the variable", vals)
        except ValueError as e:
            need("the variable" in str(e), "message does not name the "
                 "variable: %s" % e)
        else:
            need(False, "check_value accepts %r among %s" % (v, vals))
        ok = False
    rec.nt(len(vals) > 1)
    rec.label("accepted" if ok else "refused")


@sub("C27", "services_refuse_other_requests", st.fixed_dictionaries({
    "kind": st.sampled_from(sorted(KINDS)), "key": gen.KEY,
    "what": st.sampled_from(["features", "nan", "norm", "model", "cost"]),
    "p": st.sampled_from([1, 2, 3, 5, 8]),
    "i": st.integers(0, 5), "j": st.integers(0, P-1)}), quick=300,
    rule="every case")
def _(c, rec):
    c = dict(c, idx={k: 0 for k in KINDS[c["kind"]][2] if k != "verbosity"},
             n=20, layout="C")
    cplx = KINDS[c["kind"]][1]
    e = build(c)
    fit(c, e, data(c))
    before = c19.observe(e)
    y = np.array(data(c, "y", n=6))
    rec.label(c["what"], c["kind"])
    if c["what"] == "features" and c["kind"] != "online":
        rejects(e.mahalanobis, data(c, "y", p=c["p"], n=6),
                what="Mahalanobis distances of %d features" % c["p"])
    elif c["what"] == "nan":
        y[c["i"], c["j"]] = np.nan
        rejects(e.mahalanobis, y, what="Mahalanobis distances of NaN")
    elif c["what"] == "norm":
        rejects(e.error_norm, e.covariance_, norm="nuclear",
                exc=NotImplementedError, what="unknown norm")
    elif c["what"] == "model" and c["kind"] in ("tyler", "ctyler"):
        rejects(e.score, y, model="Laplace", exc=NotImplementedError,
                what="unknown model")
    elif c["what"] == "cost":
        f = MC.Tyler_cost_complex if cplx else MC.Tyler_cost_real
        q = np.eye(c["p"], dtype=complex if cplx else float)
        rejects(f, y, q, exc=AttributeError, what="Tyler cost of %d features "
                "for a matrix of size %d" % (P, c["p"]))
    else:
        return
    unchanged(c, e, before, None, None, "refused request")
    rec.nt()
