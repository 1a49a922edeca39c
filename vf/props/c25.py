"""C25: data generators."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from robuststats.utils import generation_data as G

from .. import gen
from ..core import META, arr, close, herm, need, rejects, same, sub, sut
from .mest import H

META["C25"] = {"assumptions": [
    "NumPy's and SciPy's own distributions are trusted as reference laws; "
    "statistical checks reject below probability 1e-9 per statistic",
    "frames with at most as many columns as rows, gamma textures of shape at "
    "least 0.04, covariances of condition number up to 1e3"]}
PV = 1e-9


def seeded(c, fn, *a, shift=0, **k):
    np.random.seed((c["seed"] + shift) % 2**32)
    return sut(fn, *a, **k)


@st.composite
def case(draw, pmax=9, **k):
    p = draw(gen.size(1, pmax, 5*pmax))
    c = {"p": p, "k": draw(st.integers(1, p)), "seed": draw(
        st.integers(0, 2**32-1)), "key": draw(gen.KEY),
        "cplx": draw(st.booleans()), "unit": draw(st.booleans())}
    c.update({n: draw(s) for n, s in k.items()})
    return c


def pick(c, real, cplx):
    return getattr(G, cplx if c["cplx"] else real)


def label(c, rec):
    rec.label("complex" if c["cplx"] else "real", "p=%d" % c["p"])


def reproducible(c, what, fn, *a, **k):
    x = np.array(seeded(c, fn, *a, **k))
    y = np.array(sut(fn, *a, **k))
    same(seeded(c, fn, *a, **k), x, "%s after reseeding" % what)
    if x.size > 1:
        need(not np.array_equal(x, y), "%s: second draw equals the first"
             % what)
        need(not np.array_equal(x, seeded(c, fn, *a, shift=1, **k)),
             "%s: other seed, same draw" % what)
    return x


@sub("C25", "covariances", case(), quick=400, rule="p > 1")
def _(c, rec):
    f = pick(c, "generate_covariance", "generate_complex_covariance")
    p = c["p"]
    s = arr(reproducible(c, "covariance", f, p), (p, p), "covariance",
            cplx=c["cplx"])
    herm(s, 1e-12, "covariance")
    w = np.linalg.eigvalsh(s)
    need(w[0] > -1e-14*w[-1], "covariance has eigenvalue %g" % w[0])
    if c["cplx"]:
        need(w[0] >= 1-1e-10 and w[-1] <= 2+1e-10,
             lambda: "eigenvalues %s outside [1, 2]" % w)
    else:
        need(w[-1] <= 1+1e-10, lambda: "eigenvalues %s outside (0, 1]" % w)
    if p > 1:
        need(w[-1]-w[0] > 1e-9*w[-1], lambda: "covariance is a multiple of "
             "the identity, eigenvalues %s" % w)
    need(s.dtype == (np.complex128 if c["cplx"] else np.float64),
         "covariance of type %s" % s.dtype)
    same(seeded(c, f, p, unit_det=False), s, "unit_det=False")
    u = arr(seeded(c, f, p, unit_det=True), (p, p), "unit-determinant "
            "covariance", cplx=c["cplx"])
    herm(u, 1e-12, "unit-determinant covariance")
    if w[0] > 1e-9*w[-1]:
        d = np.linalg.slogdet(u)
        need(abs(d[1]) <= 1e-13*p*w[-1]/w[0]+1e-10, lambda: "determinant "
             "exp(%g)" % d[1])
        close(u, s/np.exp(np.mean(np.log(w))), 1e-13*w[-1]/w[0]+1e-10,
              "unit-determinant covariance")
    rec.nt(p > 1)
    label(c, rec)


@st.composite
def large(draw):
    return {"p": draw(st.integers(150, 700)), "cplx": draw(st.booleans()),
            "seed": draw(st.integers(0, 2**32-1))}


@sub("C25", "large_unit_determinant", large(), quick=4, shards=2,
     rule="determinant of the scaled covariance out of the range of floats")
def _(c, rec):
    # the determinant is one whatever the size, also when that of the matrix
    # before scaling cannot be represented
    f = pick(c, "generate_covariance", "generate_complex_covariance")
    p = c["p"]
    u = arr(seeded(c, f, p, unit_det=True), (p, p), "unit-determinant "
            "covariance", cplx=c["cplx"])
    herm(u, 1e-11, "unit-determinant covariance")
    w = np.linalg.eigvalsh(u)
    need(w[0] > 0, "unit-determinant covariance has eigenvalue %g" % w[0])
    need(abs(np.sum(np.log(w))) < 1e-12*p*w[-1]/w[0] + 1e-8,
         lambda: "determinant exp(%g)" % np.sum(np.log(w)))
    rec.nt(not c["cplx"] and p > 400)
    label(c, rec)


@sub("C25", "frames", case(), quick=400, rule="1 < k < p")
def _(c, rec):
    f = pick(c, "generate_stiefel", "generate_complex_stiefel")
    p, k = c["p"], c["k"]
    q = arr(reproducible(c, "frame", f, p, k) if p > 1 else
            seeded(c, f, p, k), (p, k), "frame", cplx=c["cplx"])
    close(H(q) @ q, np.eye(k), 1e-11, "Gram matrix of the frame")
    rec.nt(1 < k < p)
    label(c, rec)


@sub("C25", "frames_are_uniform", case(pmax=4), quick=30, shards=2,
     rule="p > 1")
def _(c, rec):
    f = pick(c, "generate_stiefel", "generate_complex_stiefel")
    p, k, m = c["p"], c["k"], 300
    np.random.seed(c["seed"])
    q = np.array([f(p, k) for _ in range(m)])
    if p > 1:
        h = 1. if c["cplx"] else .5
        for i, j in ((0, 0), (p-1, k-1), (0, k-1)):
            ks(np.abs(q[:, i, j])**2, ss.beta(h, h*(p-1)).cdf,
               "squared entry (%d, %d) of the frames" % (i, j))
            if c["cplx"]:
                ks(np.angle(q[:, i, j]), ss.uniform(-np.pi, 2*np.pi).cdf,
                   "phase of entry (%d, %d) of the frames" % (i, j))
    # E vec(q) = 0, E vec(q) vec(q)^H = I/p; entries bounded by 1
    v = q.reshape(m, -1)
    lim = 7/np.sqrt(m*p)
    need(np.max(np.abs(v.mean(0))) <= lim, "mean of the frames is %s"
         % v.mean(0))
    r = v.T @ v.conj()/m
    dev = np.max(np.abs(r - np.eye(p*k)/p))
    need(dev <= 7/np.sqrt(m)/p*1.5 if p > 1 else dev < 1e-9,
         "second moments of the frames deviate by %.3g" % dev)
    if c["cplx"]:
        need(np.max(np.abs(v.T @ v/m)) <= 7/np.sqrt(m)*1.5/p if p > 1 else
             np.max(np.abs(v.T @ v/m)) <= 7/np.sqrt(m),
             "complex frames are not circular")
    rec.nt(p > 1)
    label(c, rec)


def ks(x, law, what):
    r = ss.kstest(np.ravel(x), law)
    need(r.pvalue > PV, lambda: "%s: Kolmogorov-Smirnov distance %.3g over "
         "%d values" % (what, r.statistic, np.size(x)))


@sub("C25", "textures", case(nu=st.one_of(
    st.sampled_from([.1, .3, 1., 2.5, 10., 100.]),
    st.integers(-28, 80).map(lambda i: 10**(i/20))),
    var=st.one_of(st.sampled_from([.01, .5, 1., 2.4, 4.]),
                  st.integers(-60, 20).map(lambda i: 10**(i/20))),
    n=st.sampled_from([1, 2, 7, 500, 3000])),
     quick=150, rule="at least 500 textures")
def _(c, rec):
    n = c["n"]
    for what, f, par, law, dflt in (
            ("gamma", G.generate_textures_gamma_dist, c["nu"],
             ss.gamma(c["nu"], scale=1/c["nu"]).cdf, .1),
            ("log-normal", G.generate_textures_lognormal_dist, c["var"],
             ss.norm(-c["var"]/2, np.sqrt(c["var"])).cdf, 2.4)):
        t = arr(reproducible(c, what + " textures", f, n, par), (n, 1),
                what + " textures", cplx=False)
        need(np.all(t > 0), what + " textures are not positive")
        ks(np.log(t) if what == "log-normal" else t, law, what + " textures")
        same(t, seeded(c, f, n, **{"nu" if what == "gamma" else "variance":
                                   par}), what + " by keyword")
        same(seeded(c, f, n), seeded(c, f, n, dflt), what + " default")
        if n >= 3000 and (what == "gamma" and par >= 1
                          or what != "gamma" and par <= .5):
            sd = np.sqrt((1/par if what == "gamma" else np.expm1(par))/n)
            need(abs(t.mean()-1) < 7*sd, "%s textures have mean %g" % (
                what, t.mean()))
    rec.nt(n >= 500)
    rec.label("n=%d" % n)


def white(x, cplx, what):
    """independent standard normal entries (circular when complex)"""
    n = x.shape[1]
    parts = [x.real*np.sqrt(2), x.imag*np.sqrt(2)] if cplx else [x]
    z = np.concatenate(parts)
    ks(z, "norm", what)
    if n >= 200:
        r = z @ z.T/n - np.eye(len(z))
        need(np.max(np.abs(r)) < 10/np.sqrt(n), lambda: "%s: entries are "
             "correlated, %.3g" % (what, np.max(np.abs(r))))
        r = z[:, 1:] @ z[:, :-1].T/n
        need(np.max(np.abs(r)) < 10/np.sqrt(n), "%s: draws are correlated"
             % what)


CASE = dict(n=st.sampled_from([1, 2, 3, 10, 25, 400, 1000]),
            cov=gen.cov_spec(3, 2), layout=st.sampled_from(gen.LAYOUTS),
            dim=st.sampled_from([1, 2]), tail=st.sampled_from([0, 1, 2, 8]),
            unit=st.sampled_from([0, 0, 0, -12, 12]))


def cov(c):
    return gen.layout(10.0**c["unit"]*gen.cov(c["cov"], c["p"], c["cplx"]),
                      c["layout"])


@sub("C25", "normal_samples", case(pmax=7, **CASE), quick=250,
     rule="p > 1, at least as many samples as dimensions")
def _(c, rec):
    p, n = c["p"], c["n"]
    f0 = pick(c, "sample_standard_normal_distribution",
              "sample_complex_standard_normal_distribution")
    f = pick(c, "sample_normal_distribution",
             "sample_complex_normal_distribution")
    z = arr(reproducible(c, "standard normal", f0, p, n), (p, n),
            "standard normal samples", cplx=c["cplx"])
    white(z, c["cplx"], "standard normal samples")
    s = cov(c)
    s0 = np.array(s)
    x = arr(reproducible(c, "normal", f, n, s), (p, n), "normal samples",
            cplx=c["cplx"])
    same(s, s0, "covariance after sampling")
    # whatever the square root, the samples are linear in it
    y = seeded(c, f, n, np.eye(p, dtype=s.dtype))
    white(y, c["cplx"], "samples of unit covariance")
    if n >= 2*p:
        L = x @ np.linalg.pinv(y)
        close(L @ y, x, 1e-9, "samples as a linear map of white ones")
        close(L @ H(L), s0, 1e-8, "covariance of the samples")
    close(seeded(c, f, n, 4*s0), 2*x, 1e-10, "samples of four times the "
          "covariance")
    bad = s0.astype(np.float32 if c["cplx"] else np.complex128)
    rejects(f, n, bad, what="covariance of type %s" % bad.dtype)
    rejects(f, n, s0.real.astype(np.float64 if c["cplx"] else np.float32),
            what="covariance of wrong type")
    rec.nt(p > 1 and n >= 2*p)
    label(c, rec)
    rec.label("n=%d" % n)


def texture(c):
    g = gen.rng(c["key"], "tau")
    t = np.exp(g.standard_normal(c["n"])*c["tail"])
    if c["tail"] >= 2 and c["n"] > 1:
        t[0] = 0
    return t if c["dim"] == 1 else t[:, None]


@sub("C25", "compound_samples", case(pmax=7, **CASE), quick=250,
     rule="p > 1, n > 1, textures vary")
def _(c, rec):
    n, p = c["n"], c["p"]
    f = pick(c, "sample_compound_distribution",
             "sample_complex_compound_distribution")
    g = pick(c, "sample_normal_distribution",
             "sample_complex_normal_distribution")
    s, t = cov(c), texture(c)
    t0 = t.copy()
    x = arr(reproducible(c, "compound", f, t, s), (p, n), "compound samples",
            cplx=c["cplx"])
    same(t, t0, "textures after sampling")
    w = seeded(c, g, n, s)*np.sqrt(np.ravel(t))
    close(x, w, 1e-12, "compound samples", floor=1e-300)
    # each draw to its own precision: textures are of very unequal sizes
    need(np.all(np.linalg.norm(x-w, axis=0) <= 1e-12*np.linalg.norm(
        w, axis=0)), "draws of small texture are not compounded by it")
    rejects(f, t, np.array(s).astype(np.float32 if c["cplx"] else complex),
            what="covariance of wrong type")
    rec.nt(p > 1 and n > 1 and c["tail"])
    label(c, rec)


@sub("C25", "subspace_samples", case(pmax=7, **CASE), quick=250,
     rule="k < p, n > 1, textures vary")
def _(c, rec):
    n, p, k = c["n"], c["p"], c["k"]
    f = pick(c, "sample_tau_UUH_distribution",
             "sample_complex_tau_UUH_distribution")
    u = gen.unitary(c["key"], "u", p, c["cplx"])[:, :k]*10.**c["cov"]["logs"]
    u = gen.layout(u, c["layout"])
    t = texture(c)
    t0, u0 = t.copy(), np.array(u)
    x = arr(reproducible(c, "subspace", f, t, u), (p, n), "subspace samples",
            cplx=c["cplx"])
    same(t, t0, "textures after sampling")
    same(u, u0, "frame after sampling")
    noise = seeded(c, f, 0*t, u)
    white(noise, c["cplx"], "noise of the subspace samples")
    d = x - noise                          # sqrt(tau) U g
    sc = np.linalg.norm(x)
    y = np.linalg.pinv(u0) @ d
    close(u0 @ y, d, 1e-9, "signal in the subspace", floor=sc)
    one = seeded(c, f, np.ones_like(t), u) - noise
    close(d, one*np.sqrt(np.ravel(t)), 1e-9, "signal scaled by the textures",
          floor=sc)
    s1 = np.linalg.norm(one)
    if c["cov"]["logs"] >= -2:
        white(np.linalg.pinv(u0) @ one, c["cplx"], "signal coordinates")
    close(seeded(c, f, np.ones_like(t), 3*u0) - noise, 3*one, 1e-9,
          "signal linear in the frame", floor=sc+s1)
    if n >= 400:
        a = np.linalg.pinv(u0) @ one
        r = a @ noise.conj().T/n
        need(np.max(np.abs(r)) < 10/np.sqrt(n), "signal and noise are "
             "correlated")
        if c["cplx"]:
            r = a @ noise.T/n
            need(np.max(np.abs(r)) < 10/np.sqrt(n), "signal and noise are "
                 "correlated")
    rejects(f, t, u0.astype(np.float32 if c["cplx"] else complex),
            what="frame of wrong type")
    rec.nt(k < p and n > 1 and c["tail"])
    label(c, rec)


@sub("C25", "small_draws_follow_the_law", case(
    pmax=3, n=st.integers(1, 3), what=st.sampled_from(
        ["standard", "normal", "compound", "subspace", "gamma"])),
    quick=60, rule="draws of vectors")
def _(c, rec):
    """many draws of few samples, put together"""
    p, n, m = min(c["p"], 4), c["n"], 400
    kind = complex if c["cplx"] else float
    eye, ones = np.eye(p, dtype=kind), np.ones(n)
    np.random.seed(c["seed"])
    if c["what"] == "gamma":
        t = np.array([np.ravel(sut(G.generate_textures_gamma_dist, n, nu=2.5))
                      for _ in range(m)])
        for i in range(n):
            ks(t[:, i], ss.gamma(2.5, scale=1/2.5).cdf, "texture %d" % i)
        rec.label("textures")
        return
    f, a = {
        "standard": (pick(c, "sample_standard_normal_distribution",
                          "sample_complex_standard_normal_distribution"),
                     (p, n)),
        "normal": (pick(c, "sample_normal_distribution",
                        "sample_complex_normal_distribution"), (n, eye)),
        "compound": (pick(c, "sample_compound_distribution",
                          "sample_complex_compound_distribution"),
                     (ones, eye)),
        "subspace": (pick(c, "sample_tau_UUH_distribution",
                          "sample_complex_tau_UUH_distribution"),
                     (0*ones, eye[:, :1]))}[c["what"]]
    x = np.array([arr(sut(f, *a), (p, n), "samples", cplx=c["cplx"])
                  for _ in range(m)])
    # entries of one draw, over the draws: all independent
    white(x.reshape(m, p*n).T, c["cplx"], "%s, %d at a time" % (c["what"], n))
    rec.nt(p > 1)
    label(c, rec)
    rec.label(c["what"])
