"""C04: random draws."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from robuststats.models.probability import complex_multivariate_normal as CN
from robuststats.models.probability import complex_multivariate_t as CT

from .. import gen
from ..core import META, arr, need, same, sub, sut

PMIN = 1e-10
META["C04"] = {"assumptions": [
    "statistical obligations reject at p < %g per statistic, with the seed of "
    "each draw fixed by the case" % PMIN,
    "sizes are integers"]}


HOW = ["call", "frozen", "frozen-state", "global", "frozen-global", "object",
       "frozen-object", "frozen-attribute", "own"]


@st.composite
def case(draw, nmin=1, nmax=9, law=None):
    p = draw(gen.size(1, 6, 40))
    return {"p": p, "key": draw(gen.KEY), "cov": draw(gen.cov_spec(3, 3)),
            "n": draw(gen.size(nmin, nmax, 10*nmax)), "cplx": draw(st.booleans()),
            "loc": draw(st.sampled_from(["none", "zero", "rand"])),
            "law": draw(st.sampled_from(["normal", "t"])),
            "df": draw(st.one_of(
                st.sampled_from([0.7, 1., 2., 3.5, 5., 20., 300.]),
                st.integers(-6, 60).map(lambda i: 10**(i/20)))),
            "seed": draw(st.one_of(st.sampled_from([0, 0, 1, 2**31, 2**32-1]),
                                   st.integers(0, 2**31-1))),
            "how": draw(st.sampled_from(HOW)),
            "realcov": draw(st.booleans())}


def params(c):
    p = c["p"]
    s = gen.cov(c["cov"], p, c["cplx"])
    if c["cplx"] and c["realcov"] and c["loc"] == "rand":
        s = gen.cov(c["cov"], p, False)
    sd = np.sqrt(np.trace(s).real/p)
    loc = {"none": None, "zero": np.zeros(p, dtype=s.dtype),
           "rand": 3*sd*gen.normal(c["key"], "m", (p,), c["cplx"])}[c["loc"]]
    return loc, s


def draw_(c, loc, s, size, how=None, seed=None):
    how = how or c["how"]
    seed = c["seed"] if seed is None else seed
    extra = (c["df"],) if c["law"] == "t" else ()
    law = CT if c["law"] == "t" else CN
    if how == "call":
        return sut(law.rvs, loc, s, *extra, size=size, random_state=seed)
    if how == "frozen":
        return sut(sut(law, loc, s, *extra, seed=seed).rvs, size=size)
    if how == "frozen-state":
        return sut(sut(law, loc, s, *extra).rvs, size=size, random_state=seed)
    if how == "object":
        return sut(law.rvs, loc, s, *extra, size=size,
                   random_state=np.random.RandomState(seed))
    if how == "frozen-object":
        return sut(sut(law, loc, s, *extra,
                       seed=np.random.RandomState(seed)).rvs, size=size)
    if how == "frozen-attribute":
        f = sut(law, loc, s, *extra)
        f.random_state = seed
        return sut(f.rvs, size)
    if how == "own":
        return sut(type(law)(seed).rvs, loc, s, *extra, size=size)
    st_ = np.random.get_state()
    np.random.seed(seed)
    try:
        if how == "global":
            return sut(law.rvs, loc, s, *extra, size=size)
        return sut(sut(law, loc, s, *extra).rvs, size=size)
    finally:
        np.random.set_state(st_)


def label(c, rec):
    rec.label(c["law"], c["how"], "complex" if c["cplx"] else "real",
              "loc="+c["loc"], "p=%d" % c["p"])


@sub("C04", "shape_type_and_seed", case(), quick=400,
     rule="complex with p > 1")
def _(c, rec):
    loc, s = params(c)
    n, p = c["n"], c["p"]
    x = arr(draw_(c, loc, s, n), None, "draw", cplx=c["cplx"])
    # SciPy squeezes axes of length one of real draws
    want = [(n, p)] if n > 1 and p > 1 else \
        [(n, p), (p,), (n,)] if n > 1 or p > 1 else [(1, 1), (1,), ()]
    if n > 1 and p == 1:
        want = [(n, 1)] if c["cplx"] else [(n, 1), (n,)]
    if n == 1 and p > 1:
        want = [(1, p), (p,)]
    need(x.shape in want, "draw of size %d in dimension %d has shape %s" % (
        n, p, x.shape))
    same(draw_(c, loc, s, n), x, "same seed, second draw")
    for how in HOW:
        same(draw_(c, loc, s, n, how), x, "same seed, drawn by " + how)
    y = np.asarray(draw_(c, loc, s, n, seed=(c["seed"]+1) % 2**31))
    need(not np.array_equal(x, y), "two seeds give identical draws")
    if n > 1:
        need(len({r.tobytes() for r in x.reshape(n, -1)}) == n,
             "repeated rows in one draw")
    rec.nt(c["cplx"] and p > 1)
    label(c, rec)


STREAMS = ["frozen", "frozen with object", "frozen with generator", "module",
           "own", "global", "object", "generator", "frozen on object"]


@st.composite
def history(draw):
    c = draw(case(1, 4))
    c["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(STREAMS), st.integers(1, 4), st.integers(0, 1),
        st.sampled_from(["normal", "t"])), min_size=2, max_size=12))
    return c


@sub("C04", "histories_of_streams", history(), quick=200,
     rule="a stream is drawn from again after another one")
def _(c, rec):
    """Every source of randomness goes on where it stopped, whatever was
    drawn from the others: two of each, with their own seeds."""
    loc, s = params(c)
    p, made, model = c["p"], {}, {}
    before = np.random.get_state()
    laws = {"normal": (CN, ()), "t": (CT, (c["df"],))}
    np.random.seed(c["seed"] % 2**31)
    world = np.random.RandomState(c["seed"] % 2**31)
    used, back = [], False
    try:
        for what, n, i, name in c["ops"]:
            law, extra = laws[name]
            k = (what, i) if what in ("object", "generator") else (
                what, i, name)
            seed = (c["seed"] + 7*STREAMS.index(what) + 77*i) % 2**31
            new = np.random.default_rng if "generator" in what else \
                np.random.RandomState
            if k not in made and what != "global":
                model[k] = new(seed)
                made[k] = {
                    "frozen": lambda: law(loc, s, *extra, seed=seed),
                    "frozen with object": lambda: law(
                        loc, s, *extra, seed=new(seed)),
                    "frozen with generator": lambda: law(
                        loc, s, *extra, seed=new(seed)),
                    "frozen on object": lambda: (
                        law(loc, s, *extra, seed=c["seed"]), new(seed)),
                    "own": lambda: type(law)(seed),
                    "module": lambda: type(law)(0),
                    "object": lambda: new(seed),
                    "generator": lambda: new(seed)}[what]()
                if what == "module":
                    made[k].random_state = new(seed)
            o = made.get(k)
            if what in ("frozen", "frozen with object",
                        "frozen with generator"):
                x = sut(o.rvs, n)
            elif what == "frozen on object":
                x = sut(o[0].rvs, n, random_state=o[1])
            elif what in ("own", "module"):
                x = sut(o.rvs, loc, s, *extra, size=n)
            elif what == "global":
                x = sut(law.rvs, loc, s, *extra, size=n)
            else:
                x = sut(law.rvs, loc, s, *extra, size=n, random_state=o)
            want = sut(law.rvs, loc, s, *extra, size=n, random_state=world
                       if what == "global" else model[k])
            same(x, want, "draw from %s after %s" % (k, used[-3:]))
            back = back or k in used[:-1] and used[-1] != k
            used.append(k)
    finally:
        np.random.set_state(before)
    rec.nt(back)
    rec.label(*{u[0] for u in used})


@sub("C04", "location_and_scale_are_exact", case(), quick=150,
     rule="nonzero location")
def _(c, rec):
    # same seed: adding a location shifts, scaling the matrix scales
    _, s = params(dict(c, loc="none"))
    if c["cplx"]:
        s = s.astype(complex)
    p, n = c["p"], c["n"]
    zero = np.zeros(p, dtype=s.dtype)
    m = np.sqrt(np.trace(s).real/p)*gen.normal(c["key"], "mm", (p,), c["cplx"])
    x0 = np.asarray(draw_(c, zero, s, n)).reshape(n, p)
    x1 = np.asarray(draw_(c, m, s, n)).reshape(n, p)
    sc = np.max(np.abs(x0)) + np.max(np.abs(m))
    need(np.max(np.abs(x1 - x0 - m)) <= 1e-12*sc,
         "a location does not simply shift the draws")
    x2 = np.asarray(draw_(c, zero, 4*s, n)).reshape(n, p)
    need(np.max(np.abs(x2 - 2*x0)) <= 1e-6*sc,
         "four times the covariance does not double the draws")
    xn = np.asarray(draw_(c, None, s, n)).reshape(n, p)
    need(np.max(np.abs(xn - x0)) <= 1e-12*sc,
         "the default location is not zero")
    rec.nt()
    label(c, rec)


def pz(z):
    """two-sided p-value bound of a mean of many bounded-kurtosis terms."""
    return 2*stats.norm.sf(abs(z))


@sub("C04", "law_of_the_draws", case(20000, 20000), quick=120, shards=4,
     rule="complex with p > 1 and non-diagonal covariance")
def _(c, rec):
    loc, s = params(c)
    n, p, cp = c["n"], c["p"], c["cplx"]
    x = np.asarray(draw_(c, loc, s, n)).reshape(n, p)
    d = x - (0 if loc is None else loc)
    w, v = np.linalg.eigh(s)
    z = d @ ((v/np.sqrt(w)) @ v.conj().T).T
    q = np.sum(np.abs(z)**2, axis=1)
    k = 2*p if cp else p
    if c["law"] == "normal":
        ks = stats.kstest(q*(2 if cp else 1), stats.chi2(k).cdf).pvalue
    else:
        ks = stats.kstest(q/p, stats.f(k, c["df"]).cdf).pvalue
    need(ks > PMIN, "squared Mahalanobis distances do not follow the law "
         "(KS p-value %.2g)" % ks)
    # directions: uniform on the (complex) sphere, independent of the modulus
    u = z/np.sqrt(q)[:, None]
    r = np.concatenate([u.real, u.imag], axis=1) if cp else u
    lim = stats.norm.isf(PMIN/2/(k*k))
    m1 = np.mean(r, axis=0)*np.sqrt(n*k)
    need(np.max(np.abs(m1)) < lim, "directions are not centred")
    if k > 1:
        m2 = (r.T @ r)/n - np.eye(k)/k
        # variances of u_i u_j and u_i^2 on the sphere
        off = np.sqrt(1/(k*(k+2))/n)
        dia = np.sqrt((3/(k*(k+2)) - 1/k**2)/n)
        sd = np.where(np.eye(k) > 0, dia, off)
        need(np.max(np.abs(m2)/sd) < lim,
             "whitened draws are not isotropic (covariance or circularity): "
             "%.1f sigma" % np.max(np.abs(m2)/sd))
        # independence of modulus rank and direction
        rk = stats.rankdata(q)/n - .5
        m3 = np.abs((rk @ (r*r))/n)/np.sqrt(
            (3/(k*(k+2)) - 1/k**2)/12/n)
        need(np.max(m3) < lim, "modulus and direction are dependent")
    # successive draws are independent
    m4 = np.abs(np.mean(r[1:]*r[:-1], axis=0))*k*np.sqrt(n-1)
    need(np.max(m4) < lim, "successive draws are correlated")
    rec.nt(cp and p > 1 and c["cov"]["kind"] not in ("ident", "diag"))
    label(c, rec)
