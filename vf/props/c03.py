"""C03: circular complex (and real) multivariate Student-t law."""
import numpy as np
from hypothesis import strategies as st
from scipy import integrate, stats
from scipy.special import gammaln, psi

from robuststats.models.probability import complex_multivariate_normal as CN
from robuststats.models.probability import complex_multivariate_t as CT

from .. import gen
from .laws import singular, singular_case
from ..core import META, arr, close, density, need, rejects, sub, sut

META["C03"] = {"assumptions": [
    "shape matrices of condition number up to 1e4 and scale 1e-3..1e3, "
    "degrees of freedom 0.3..1e6"]}

DF = st.one_of(st.integers(1, 12).map(float),
               st.integers(-5, 60).map(lambda i: 10.0**(i/10)))


@st.composite
def case(draw, df=DF):
    p = draw(gen.size(1, 6, 40))
    return {"p": p, "key": draw(gen.KEY), "cov": draw(gen.cov_spec(4, 3)),
            "n": draw(gen.size(1, 7, 300)), "cplx": draw(st.booleans()),
            "loc": draw(st.sampled_from(["none", "zero", "rand", "real"])),
            "point": draw(st.sampled_from(["batch", "batch", "single"])),
            "df": draw(df), "realshape": draw(st.booleans()),
            "spread": draw(st.integers(-2, 6)),
            "offset": draw(st.sampled_from([0, 0, 0, 0, 2, 5]))}


def params(c):
    p = c["p"]
    s = gen.cov(c["cov"], p, c["cplx"])
    if c["cplx"] and c["realshape"]:
        s = gen.cov(c["cov"], p, False)
        if c["loc"] != "rand":
            s = s.astype(complex)
    sd = np.sqrt(np.trace(s).real/p)*10.0**c.get("offset", 0)
    loc = {"none": None, "zero": np.zeros(p, dtype=s.dtype),
           "rand": sd*gen.normal(c["key"], "m", (p,), c["cplx"]),
           "real": sd*gen.normal(c["key"], "m", (p,))}[c["loc"]]
    w, v = np.linalg.eigh(s)
    g = gen.normal(c["key"], "x", (c["n"], p), c["cplx"])*2.0**c["spread"]
    x = g @ ((v*np.sqrt(w)) @ v.conj().T).T
    if loc is not None:
        x = x + loc
    if c["point"] == "single":
        x = x[0]
    return x, loc, s


def quad(x, loc, s):
    d = np.atleast_2d(x) - (0 if loc is None else loc)
    return np.real(np.einsum("ni,in->n", d.conj(), np.linalg.solve(s, d.T)))


def reference(x, loc, s, df, cplx):
    p = len(s)
    q = quad(x, loc, s)
    ld = np.linalg.slogdet(s)[1]
    if cplx:
        # real law on (Re, Im) with shape 1/2 [[R, -I], [I, R]]
        d = 2*p
        return (gammaln((df+d)/2) - gammaln(df/2) - p*np.log(df*np.pi) - ld
                + p*np.log(2) - (df+d)/2*np.log1p(2*q/df))
    return (gammaln((df+p)/2) - gammaln(df/2) - p/2*np.log(df*np.pi) - ld/2
            - (df+p)/2*np.log1p(q/df))


def label(c, rec):
    rec.label("complex" if c["cplx"] else "real", "loc="+c["loc"], c["point"],
              "cov="+c["cov"]["kind"],
              "df=%s" % ("<1" if c["df"] < 1 else "<10" if c["df"] < 10
                         else "<1e3" if c["df"] < 1e3 else ">=1e3"))


@sub("C03", "density_closed_form", case(), quick=500,
     rule="p > 1 with a non-diagonal shape")
def _(c, rec):
    x, loc, s = params(c)
    df = c["df"]
    ref = reference(x, loc, s, df, c["cplx"])
    tol = 1e-7 + 1e-11*df
    got = arr(sut(CT.logpdf, x, loc, s, df), None, "logpdf", cplx=False)
    close(np.atleast_1d(got), ref, tol, "logpdf", floor=1)
    fz = sut(CT, loc, s, df)
    close(np.atleast_1d(sut(fz.logpdf, x)), ref, tol, "frozen logpdf",
          floor=1, cplx=False)
    density(np.atleast_1d(sut(CT.pdf, x, loc, s, df)), ref, 1e-5+1e-9*df,
            "pdf")
    density(np.atleast_1d(sut(fz.pdf, x)), ref, 1e-5+1e-9*df, "frozen pdf")
    rec.nt(c["p"] > 1 and c["cov"]["kind"] not in ("ident", "diag"))
    label(c, rec)


@sub("C03", "entropy", case(), quick=150, rule="p > 1")
def _(c, rec):
    x, loc, s = params(c)
    df, p = c["df"], c["p"]
    ld = np.linalg.slogdet(s)[1]
    d = 2*p if c["cplx"] else p
    # -E log f, the quadratic form being d F(d, df) distributed
    h = (gammaln(df/2) - gammaln((df+d)/2) + d/2*np.log(df*np.pi)
         + (df+d)/2*(psi((df+d)/2) - psi(df/2)))
    h += (ld - p*np.log(2)) if c["cplx"] else ld/2
    tol = 1e-6 + 1e-9*df
    close(np.float64(sut(CT.entropy, loc, s, df)), h, tol, "entropy", floor=1,
          cplx=False)
    close(np.float64(sut(sut(CT, loc, s, df).entropy)), h, tol,
          "frozen entropy", floor=1, cplx=False)
    rec.nt(p > 1)
    label(c, rec)


@sub("C03", "real_parameters_give_the_real_law", case(), quick=150,
     rule="p > 1")
def _(c, rec):
    c = dict(c, cplx=False)
    x, loc, s = params(c)
    ref = stats.multivariate_t(
        loc=loc if loc is not None else np.zeros(c["p"]), shape=s, df=c["df"])
    r = np.atleast_1d(ref.logpdf(x))
    close(np.atleast_1d(sut(CT.logpdf, x, loc, s, c["df"])), r, 1e-8,
          "real logpdf", floor=1, cplx=False)
    close(np.atleast_1d(sut(sut(CT, loc, s, c["df"]).logpdf, x)), r, 1e-8,
          "real frozen logpdf", floor=1, cplx=False)
    close(np.atleast_1d(sut(CT.pdf, x, loc, s, c["df"])), np.exp(r), 1e-8,
          "real pdf", cplx=False)
    rec.nt(c["p"] > 1)


@sub("C03", "invariance_and_affine_change", case(), quick=200,
     rule="p > 1, complex")
def _(c, rec):
    x, loc, s = params(c)
    p, cp, df = c["p"], c["cplx"], c["df"]
    a = gen.mixing(c["key"], "A", p, cp)
    b = gen.normal(c["key"], "b", (p,), cp)
    m0 = np.zeros(p, dtype=s.dtype) if loc is None else loc
    if cp:
        m0 = m0.astype(complex)
    rhs = np.atleast_1d(sut(CT.logpdf, x, m0, s, df))
    lhs = sut(CT.logpdf, x @ a.T + b, a @ m0 + b, a @ s @ a.conj().T, df)
    jac = (2 if cp else 1)*np.linalg.slogdet(a)[1]
    close(np.atleast_1d(lhs), rhs - jac, 1e-6, "density of the transformed "
          "law", floor=1)
    if cp:
        th = np.exp(1j*(c["key"] % 1000)/159.)
        close(np.atleast_1d(sut(CT.logpdf, th*x, th*m0, s, df)), rhs, 1e-8,
              "density under a common phase", floor=1)
        close(np.atleast_1d(sut(sut(CT, th*m0, s, df).logpdf, th*x)), rhs,
              1e-8, "frozen density under a common phase", floor=1)
    # monotone in the Mahalanobis distance
    z = np.atleast_2d(x)
    q = quad(z, m0, s)
    o = np.argsort(q)
    need(np.all(np.diff(rhs[o]) <= 1e-7*np.max(np.abs(rhs)) + 1e-9),
         "log-density is not decreasing in the Mahalanobis distance")
    rec.nt(p > 1 and cp)
    label(c, rec)


@sub("C03", "tends_to_the_normal_law", case(st.just(1e7)), quick=80,
     rule="p > 1")
def _(c, rec):
    c = dict(c, spread=min(c["spread"], 1))
    x, loc, s = params(c)
    m0 = np.zeros(c["p"], dtype=s.dtype) if loc is None else loc
    if c["cplx"]:
        m0 = m0.astype(complex)
    a = np.atleast_1d(sut(CT.logpdf, x, m0, s, c["df"]))
    b = np.atleast_1d(sut(CN.logpdf, x, m0, s))
    q = np.max(quad(x, loc, s))
    close(a, b, 1e-4 + 1e-6*q**2, "Student-t log-density at df=1e7", floor=1)
    rec.nt(c["p"] > 1)


@st.composite
def total_case(draw):
    return {"key": draw(gen.KEY), "df": draw(st.integers(1, 20)),
            "logs": draw(st.integers(-2, 2)), "loc": draw(st.booleans())}


@sub("C03", "density_integrates_to_one", total_case(), quick=15,
     rule="every case (p = 1, complex plane)")
def _(c, rec):
    s = 10.0**c["logs"]
    m = np.array([complex(*gen.normal(c["key"], "m", (2,)))]) \
        if c["loc"] else np.zeros(1, dtype=complex)
    sh = np.array([[s+0j]])
    fz = sut(CT, m, sh, c["df"])
    r = np.sqrt(s)*np.tan(np.linspace(0, np.pi/2, 4001)[1:-1])
    jac = np.sqrt(s)*(1+(r/np.sqrt(s))**2)
    th = 2*np.pi*np.arange(4)/4
    tot = 0
    for t in th:
        z = m[None] + (r*np.exp(1j*t))[:, None]
        f = arr(sut(fz.pdf, z), r.shape, "pdf on the plane", cplx=False)
        tot += integrate.trapezoid(f*r*jac, dx=np.pi/2/4000)*2*np.pi/len(th)
    close(np.float64(tot), 1.0, 1e-3, "integral of the density over C")
    rec.nt()


@st.composite
def cdf_case(draw):
    return {"key": draw(gen.KEY), "n": draw(st.integers(1, 3)),
            "df": draw(st.integers(1, 8)), "cplx": draw(st.booleans()),
            "scale": draw(st.integers(-2, 2))}


@sub("C03", "cumulative_probability", cdf_case(), quick=12,
     rule="complex (two-dimensional integral)")
def _(c, rec):
    cp, df = c["cplx"], float(c["df"])
    v = 10.0**c["scale"]
    sh = np.array([[v]]).astype(complex if cp else float)
    m = np.sqrt(v)*gen.normal(c["key"], "m", (1,), cp)
    x = m + np.sqrt(v)*(gen.normal(c["key"], "x", (c["n"], 1), cp)
                        + (.3+.3j if cp else .3))
    d = (x - m)[:, 0]
    if cp:
        t = 1/np.sqrt(v/2)
        # mixture over the chi-square of independent normals
        ref = np.array([integrate.quad(
            lambda u: stats.norm.cdf(z.real*t*np.sqrt(
                stats.chi2.ppf(u, df)/df)) * stats.norm.cdf(
                z.imag*t*np.sqrt(stats.chi2.ppf(u, df)/df)), 0, 1,
            limit=60, epsabs=1e-5, epsrel=1e-5)[0] for z in d])
    else:
        ref = stats.t.cdf(d/np.sqrt(v), df)
    for what, f in (("cdf", lambda: CT.cdf(x, m, sh, df)),
                    ("frozen cdf", lambda: CT(m, sh, df).cdf(x))):
        close(np.atleast_1d(sut(f)), ref, 5e-3, what, floor=.3, cplx=False)
    rec.nt(cp)


@st.composite
def default_case(draw):
    return {"key": draw(gen.KEY), "n": draw(st.integers(1, 6))}


@sub("C03", "default_parameters", default_case(), quick=10, rule="every case")
def _(c, rec):
    x = gen.normal(c["key"], "x", (c["n"],))
    ref = stats.t.logpdf(x, 1)
    close(np.atleast_1d(sut(CT.logpdf, x)), ref, 1e-9, "default logpdf")
    close(np.atleast_1d(sut(sut(CT).logpdf, x)), ref, 1e-9,
          "default frozen logpdf")
    need(np.all(np.isfinite(np.asarray(sut(CT.rvs, size=c["n"])))),
         "default draw not finite")
    # a lone location or a lone shape is enough
    s = gen.cov({"key": c["key"], "kind": "rand", "logc": 1, "logs": 0}, 2,
                True)
    z = gen.normal(c["key"], "z", (c["n"], 2), True)
    close(np.atleast_1d(sut(CT.logpdf, z, shape=s)),
          reference(z, None, s, 1, True), 1e-8, "logpdf with default location "
          "and df", floor=1, cplx=False)
    rec.nt()


@sub("C03", "singular_shapes", singular_case(), quick=60, rule="complex")
def _(c, rec):
    x, m, s, xr, mr, sr = singular(c)
    df = c["df"]
    ref = stats.multivariate_t(mr, sr, df, allow_singular=True).logpdf(xr)
    fz = sut(CT, m, s, df, allow_singular=True)
    for what, got in (
            ("frozen logpdf", sut(fz.logpdf, x)),
            ("log of the pdf", np.log(sut(CT.pdf, x, m, s, df,
                                          allow_singular=True))),
            ("log of the frozen pdf", np.log(sut(fz.pdf, x)))):
        close(got, ref, 1e-8, what + " with a singular shape", floor=1,
              cplx=False)
    for what, f in (("pdf", lambda: CT.pdf(x, m, s, df)),
                    ("frozen law", lambda: CT(m, s, df))):
        rejects(f, what=what + " with a singular shape not allowed")
    rec.nt(c["cplx"])


@sub("C03", "data_of_the_other_kind", case(), quick=100, rule="p > 1")
def _(c, rec):
    x, loc, s = params(c)
    df = c["df"]
    if c["cplx"]:
        x = np.array(x.real)
        ref = reference(x, loc, s, df, True)
    else:
        ref = reference(x, loc, s, df, False)
        x = x + 1j*gen.normal(c["key"], "imag", x.shape)
    tol = 1e-7 + 1e-11*df
    close(np.atleast_1d(sut(CT.logpdf, x, loc, s, df)), ref, tol, "logpdf",
          floor=1, cplx=False)
    close(np.atleast_1d(sut(sut(CT, loc, s, df).logpdf, x)), ref, tol,
          "frozen logpdf", floor=1, cplx=False)
    rec.nt(c["p"] > 1)
    label(c, rec)
