"""C02: circular complex (and real) multivariate normal law."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from robuststats.models.probability import complex_multivariate_normal as CN

from .. import gen
from .laws import singular, singular_case
from ..core import META, arr, close, density, need, rejects, sub, sut

META["C02"] = {"assumptions": [
    "covariances of condition number up to 1e4 and scale 1e-3..1e3",
    "cumulative probabilities are compared at the accuracy of SciPy's "
    "quasi-Monte-Carlo integrator"]}


@st.composite
def case(draw):
    p = draw(gen.size(1, 6, 40))
    return {"p": p, "key": draw(gen.KEY), "cov": draw(gen.cov_spec(4, 3)),
            "n": draw(gen.size(1, 7, 300)), "cplx": draw(st.booleans()),
            "mean": draw(st.sampled_from(["none", "zero", "rand", "real"])),
            "point": draw(st.sampled_from(["batch", "batch", "single"])),
            "realcov": draw(st.booleans()),
            "spread": draw(st.integers(-2, 2)),
            "offset": draw(st.sampled_from([0, 0, 0, 0, 2, 5]))}


def params(c):
    p = c["p"]
    cov = gen.cov(c["cov"], p, c["cplx"])
    if c["cplx"] and c["realcov"]:
        # a real-valued covariance used with complex means and data
        cov = gen.cov(c["cov"], p, False)
        if c["mean"] != "rand":
            cov = cov.astype(complex)
    sd = np.sqrt(np.trace(cov).real/p)*10.0**c.get("offset", 0)
    mean = {"none": None, "zero": np.zeros(p, dtype=cov.dtype),
            "rand": sd*gen.normal(c["key"], "m", (p,), c["cplx"]),
            "real": sd*gen.normal(c["key"], "m", (p,))}[c["mean"]]
    w, v = np.linalg.eigh(cov)
    g = gen.normal(c["key"], "x", (c["n"], p), c["cplx"])*2.0**c["spread"]
    x = g @ ((v*np.sqrt(w)) @ v.conj().T).T
    if mean is not None:
        x = x + mean
    if c["point"] == "single":
        x = x[0]
    return x, mean, cov


def reference(x, mean, cov, cplx):
    p = len(cov)
    d = np.atleast_2d(x) - (0 if mean is None else mean)
    q = np.real(np.einsum("ni,in->n", d.conj(), np.linalg.solve(cov, d.T)))
    ld = np.linalg.slogdet(cov)[1]
    if cplx:
        r = -p*np.log(np.pi) - ld - q
    else:
        r = -.5*(p*np.log(2*np.pi) + ld + q)
    return r if np.ndim(x) == 2 else r[0]


@sub("C02", "density_closed_form", case(), quick=400,
     rule="p > 1 with a non-diagonal covariance")
def _(c, rec):
    x, mean, cov = params(c)
    ref = reference(x, mean, cov, c["cplx"])
    if c["p"] > 1 and np.ndim(x) == 2 and len(x) == 1:
        ref = ref[0]                          # SciPy squeezes a lone value
    if np.ndim(ref) == 1 and len(ref) == 1:
        ref = ref[0]
    tol = 1e-7
    got = arr(sut(CN.logpdf, x, mean, cov), None, "logpdf", cplx=False)
    close(np.squeeze(got), ref, tol, "logpdf", floor=1)
    fz = sut(CN, mean, cov)
    close(np.squeeze(sut(fz.logpdf, x)), ref, tol, "frozen logpdf", floor=1,
          cplx=False)
    density(np.squeeze(sut(CN.pdf, x, mean, cov)), ref, 1e-5, "pdf")
    density(np.squeeze(sut(fz.pdf, x)), ref, 1e-5, "frozen pdf")
    rec.nt(c["p"] > 1 and c["cov"]["kind"] not in ("ident", "diag"))
    rec.label("complex" if c["cplx"] else "real", "mean="+c["mean"],
              c["point"], "cov="+c["cov"]["kind"])


@sub("C02", "entropy", case(), quick=150, rule="p > 1")
def _(c, rec):
    x, mean, cov = params(c)
    p = c["p"]
    ld = np.linalg.slogdet(cov)[1]
    ref = p*np.log(np.pi*np.e) + ld if c["cplx"] else \
        .5*(p*np.log(2*np.pi*np.e) + ld)
    close(sut(CN.entropy, mean, cov), ref, 1e-8, "entropy", floor=1,
          cplx=False)
    close(sut(sut(CN, mean, cov).entropy), ref, 1e-8, "frozen entropy",
          floor=1, cplx=False)
    rec.nt(p > 1)
    rec.label("complex" if c["cplx"] else "real")


@sub("C02", "real_parameters_give_the_real_law", case(), quick=150,
     rule="p > 1")
def _(c, rec):
    c = dict(c, cplx=False)
    x, mean, cov = params(c)
    ref = stats.multivariate_normal(
        mean=mean if mean is not None else np.zeros(c["p"]), cov=cov)
    close(np.squeeze(sut(CN.logpdf, x, mean, cov)),
          np.squeeze(ref.logpdf(x)), 1e-8, "real logpdf", floor=1, cplx=False)
    close(np.squeeze(sut(sut(CN, mean, cov).logpdf, x)),
          np.squeeze(ref.logpdf(x)), 1e-8, "real frozen logpdf", floor=1,
          cplx=False)
    rec.nt(c["p"] > 1)


@sub("C02", "affine_change_of_variables", case(), quick=200,
     rule="p > 1, complex")
def _(c, rec):
    x, mean, cov = params(c)
    p = c["p"]
    cp = c["cplx"]
    a = gen.mixing(c["key"], "A", p, cp)
    b = gen.normal(c["key"], "b", (p,), cp)
    m0 = np.zeros(p, dtype=cov.dtype) if mean is None else mean
    lhs = sut(CN.logpdf, x @ a.T + b, a @ m0 + b, a @ cov @ a.conj().T)
    rhs = sut(CN.logpdf, x, mean, cov)
    jac = (2 if cp else 1)*np.linalg.slogdet(a)[1]
    close(lhs, np.asarray(rhs) - jac, 1e-6, "density of the transformed law",
          floor=1)
    rec.nt(p > 1 and cp)


@st.composite
def cdf_case(draw):
    return {"p": draw(st.integers(1, 2)), "key": draw(gen.KEY),
            "n": draw(st.integers(1, 3)), "cplx": draw(st.booleans()),
            "mean": draw(st.booleans()), "scale": draw(st.integers(-2, 2))}


@sub("C02", "cumulative_probability", cdf_case(), quick=60,
     rule="every case (probability strictly between 0 and 1)")
def _(c, rec):
    # independent components: the cdf is a product of one-dimensional ones
    p, cp = c["p"], c["cplx"]
    v = 10.0**c["scale"]*(0.5+gen.rng(c["key"], "v").random(p))
    cov = np.diag(v).astype(complex if cp else float)
    m = np.sqrt(v)*gen.normal(c["key"], "m", (p,), cp) if c["mean"] else \
        np.zeros(p, dtype=cov.dtype)
    x = m + np.sqrt(v)*(gen.normal(c["key"], "x", (c["n"], p), cp)+0.5)
    d = x - m
    ncdf = stats.norm.cdf
    if cp:
        ref = np.prod(ncdf(d.real/np.sqrt(v/2))*ncdf(d.imag/np.sqrt(v/2)), 1)
    else:
        ref = np.prod(ncdf(d/np.sqrt(v)), 1)
    fz = sut(CN, m, cov)
    close(np.atleast_1d(sut(CN.cdf, x, m, cov)), ref, 1e-3, "cdf", cplx=False,
          floor=.1)
    close(np.atleast_1d(sut(fz.cdf, x)), ref, 1e-3, "frozen cdf", cplx=False,
          floor=.1)
    close(np.exp(np.atleast_1d(sut(CN.logcdf, x, m, cov))), ref, 1e-3,
          "exp(logcdf)", cplx=False, floor=.1)
    close(np.exp(np.atleast_1d(sut(fz.logcdf, x))), ref, 1e-3,
          "exp(frozen logcdf)", cplx=False, floor=.1)
    rec.nt(bool(np.all((ref > 0) & (ref < 1))))
    rec.label("complex" if cp else "real")


@st.composite
def default_case(draw):
    return {"key": draw(gen.KEY), "n": draw(st.integers(1, 6))}


@sub("C02", "default_parameters", default_case(), quick=10,
     rule="every case")
def _(c, rec):
    # the declared defaults (zero mean, unit scalar covariance) are usable
    x = gen.normal(c["key"], "x", (c["n"],))
    ref = stats.norm.logpdf(x)
    close(np.atleast_1d(sut(CN.logpdf, x)), ref, 1e-9, "default logpdf")
    close(np.atleast_1d(sut(sut(CN).logpdf, x)), ref, 1e-9,
          "default frozen logpdf")
    need(np.all(np.isfinite(np.asarray(sut(CN.rvs, size=c["n"])))),
         "default draw not finite")
    rec.nt()


@sub("C02", "singular_covariances", singular_case(), quick=60,
     rule="complex")
def _(c, rec):
    x, m, s, xr, mr, sr = singular(c)
    ref = stats.multivariate_normal.logpdf(xr, mr, sr, allow_singular=True)
    fz = sut(CN, m, s, allow_singular=True)
    for what, got in (
            ("logpdf", sut(CN.logpdf, x, m, s, allow_singular=True)),
            ("frozen logpdf", sut(fz.logpdf, x)),
            ("log of the pdf", np.log(sut(CN.pdf, x, m, s, True))),
            ("log of the frozen pdf", np.log(sut(fz.pdf, x)))):
        close(got, ref, 1e-8, what + " with a singular covariance", floor=1,
              cplx=False)
    for what, f in (("logpdf", lambda: CN.logpdf(x, m, s)),
                    ("pdf", lambda: CN.pdf(x, m, s)),
                    ("frozen law", lambda: CN(m, s))):
        rejects(f, what=what + " with a singular covariance not allowed")
    rec.nt(c["cplx"])


@sub("C02", "data_of_the_other_kind", case(), quick=100, rule="p > 1")
def _(c, rec):
    # real data under a complex law have no imaginary part; the imaginary
    # part of complex data is discarded under a real law
    x, mean, cov = params(c)
    p = c["p"]
    if c["cplx"]:
        x = np.array(x.real)
        ref = reference(x, mean, cov, True)
    else:
        ref = reference(x, mean, cov, False)
        x = x + 1j*gen.normal(c["key"], "imag", x.shape)
    ref = np.atleast_1d(ref)
    close(np.atleast_1d(sut(CN.logpdf, x, mean, cov)), ref, 1e-7,
          "logpdf", floor=1, cplx=False)
    close(np.atleast_1d(sut(sut(CN, mean, cov).logpdf, x)), ref, 1e-7,
          "frozen logpdf", floor=1, cplx=False)
    rec.nt(p > 1)
    rec.label("complex" if c["cplx"] else "real")
