"""C14: normalisation of shape estimates."""
import numpy as np
from hypothesis import strategies as st

from robuststats.estimation import covariance as EC

from .. import gen
from ..core import META, arr, close, need, sub, sut
from . import mest

META["C14"] = {"assumptions": [
    "Hermitian positive definite matrices; dimension up to 120, scale "
    "1e-30..1e30"]}
NORMS = ["trace", "determinant", "element", "None", None, "unknown", "Trace"]


def factor(norm, s):
    """What the named normalisation divides by."""
    p = len(s)
    if norm == "trace":
        return np.sum(np.diagonal(s)).real/p
    if norm == "determinant":
        return np.exp(np.sum(np.log(np.linalg.eigvalsh(s)))/p)
    if norm == "element":
        return s[0, 0].real
    return 1.0


@st.composite
def fcase(draw):
    return {"p": draw(st.one_of(st.integers(1, 8), st.integers(9, 120))),
            "cov": draw(gen.cov_spec(4, 5, units=(-30, -20, -12, 12, 20, 30))),
            "key": draw(gen.KEY),
            "cplx": draw(st.booleans()), "norm": draw(st.sampled_from(NORMS)),
            "logk": draw(st.integers(-6, 6)),
            "lay": draw(st.sampled_from(gen.LAYOUTS))}


@sub("C14", "normalising_factor", fcase(), quick=800,
     rule="p > 1 and a known normalisation")
def _(c, rec):
    p = c["p"]
    f = sut(EC.get_normalisation_function, c["norm"]) \
        if c["norm"] is not None or c["key"] % 2 \
        else sut(EC.get_normalisation_function)
    s = gen.layout(gen.cov(c["cov"], p, c["cplx"]), c["lay"])
    w = np.linalg.eigvalsh(s)
    tol = 1e-14*w[-1]/w[0]*10 + 1e-11
    v = arr(sut(f, s), (), "normalising factor")
    close(v, factor(c["norm"], s), tol, "normalising factor (%s)" % c["norm"])
    k = 10.0**c["logk"]
    known = c["norm"] in ("trace", "determinant", "element")
    close(sut(f, k*np.array(s)), (k if known else 1)*v, 2*tol,
          "factor of the scaled matrix")
    close(sut(f, np.eye(p, dtype=s.dtype)), 1.0, 1e-12,
          "factor of the identity")
    # normalising twice changes nothing
    if known:
        close(sut(f, s/v), 1.0, 2*tol, "factor of a normalised matrix")
    rec.nt(p > 1 and known)
    rec.label("norm=%s" % c["norm"], "p<9" if p < 9 else "p>=9",
              "complex" if c["cplx"] else "real")


@st.composite
def ecase(draw, method):
    c = draw(mest.case("tyler", big=method == "fixed-point",
                       pmax=6 if method == "fixed-point" else 4,
                       ratio=(3, 6), extra=4, max_logc=2))
    c["norm"] = draw(st.sampled_from(NORMS))
    c["method"] = method
    c["class"] = draw(st.booleans())
    c["iter"] = draw(st.sampled_from([1, 2, 3, 5, 100]))
    c["start"] = draw(st.sampled_from(["none", "eye", "rand"]))
    c["setparam"] = draw(st.booleans())
    return c


def run(c, x, norm, init):
    if c["method"] == "fixed-point":
        kw = {"tol": 1e-10, "iter_max": c["iter"]}
        if c["class"]:
            e = mest.make("tyler", None, c["cplx"], normalisation=norm, **kw)
            return sut(e.fit, x, init=init).covariance_
        return sut(mest.call, "tyler", None, x, init=init,
                   normalisation=norm, **kw)[0]
    if c["class"]:
        e = mest.make("tyler", None, c["cplx"], normalisation=norm,
                      method="natural gradient")
        return sut(e.fit, x, init=init).covariance_
    f = EC.complex_tyler_shape_matrix_naturalgradient if c["cplx"] \
        else EC.tyler_shape_matrix_naturalgradient
    return sut(f, x, init=init, normalisation=norm)[0]


def check(c, rec):
    x = mest.setup(c)
    p = c["p"]
    # the natural gradient starts from a random point unless told otherwise
    init = mest.start(c, "rand" if c["method"] != "fixed-point" and
                      c["start"] == "none" else c["start"])
    s = arr(run(c, x, c["norm"], init), (p, p), "estimate", cplx=c["cplx"])
    raw = arr(run(c, x, "None", init), (p, p), "estimate", cplx=c["cplx"])
    if np.linalg.cond(raw) > 1e10:
        return
    close(s, raw/factor(c["norm"], raw), 1e-9, "estimate normalised by %s"
          % c["norm"])
    known = c["norm"] in ("trace", "determinant", "element")
    if known:
        w = np.linalg.cond(s)
        close(factor(c["norm"], s), 1.0, 1e-10+1e-14*w, "normalised %s"
              % c["norm"])
    if c["method"] == "fixed-point":
        r = mest.scm(x) if init is None else init
        if c["iter"] <= 5 and np.linalg.cond(r) < 1e7:
            for _ in range(c["iter"]):
                r = mest.step("tyler", None, x, r)
            d = mest.dist(raw, r)
            need(d < 1e-6, lambda: "un-normalised estimate is not the iterate "
                 "(%.3g)" % d)
    if c["class"] and c["setparam"]:
        # on the same object, one normalisation after the other
        kw = {"method": c["method"]}
        if c["method"] == "fixed-point":
            kw.update(tol=1e-10, iter_max=c["iter"])
        e = mest.make("tyler", None, c["cplx"], **kw)
        sut(e.fit, x, init=init)
        close(e.covariance_, raw, 1e-12, "default normalisation is none")
        sut(e.set_params, normalisation=c["norm"])
        close(sut(e.fit, x, init=init).covariance_, s, 1e-12,
              "normalisation set afterwards")
    rec.nt(p > 1 and known)
    mest.label(c, rec)
    rec.label("norm=%s" % c["norm"], "class" if c["class"] else "function")


sub("C14", "fixed_point_estimates", ecase("fixed-point"), quick=500,
    rule="p > 1 and a known normalisation")(check)
sub("C14", "natural_gradient_estimates", ecase("natural gradient"), quick=80,
    shards=4, rule="p > 1 and a known normalisation")(check)
