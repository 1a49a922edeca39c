"""C01: complex <-> real equivalents."""
import numpy as np
from hypothesis import strategies as st

from robuststats.models import mappings as M

from .. import gen
from ..core import META, arr, close, need, posdef, rejects, same, sub, sut

META["C01"] = {"assumptions": [
    "finite IEEE-754 double or single inputs; equality of round trips is exact "
    "(halving and doubling are exact away from subnormals)"]}


@st.composite
def arrays(draw):
    nd = draw(st.integers(1, 2))
    p = draw(st.one_of(st.integers(1, 8), st.integers(1, 70)))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 300)))
    return {"nd": nd, "p": p, "n": n, "key": draw(gen.KEY),
            "exp": draw(st.integers(-200, 200)),
            "dtype": draw(st.sampled_from(["complex128", "complex128",
                                           "complex64"])),
            "content": draw(st.sampled_from(
                ["normal", "normal", "wide", "realvalued", "imaginary",
                 "integers", "zeros"])),
            "layout": draw(st.sampled_from(gen.LAYOUTS))}


def build(c, shape, tag="a"):
    z = gen.normal(c["key"], tag, shape, True)
    k = c["content"]
    if k == "wide":
        z = z*10.0**(gen.rng(c["key"], tag+"w").integers(-30, 30, shape))
    elif k == "realvalued":
        z = z.real.astype(complex)
    elif k == "imaginary":
        z = 1j*z.imag
    elif k == "integers":
        z = np.round(3*z.real)+1j*np.round(3*z.imag)
    elif k == "zeros":
        z = z*0
    if c["dtype"] == "complex64":
        z = (z*2.0**(c["exp"] % 20)).astype(np.complex64)
    else:
        z = z*2.0**c["exp"]
    return gen.layout(z, c["layout"])


@sub("C01", "array_round_trip", arrays(), quick=600,
     rule="more than one feature and non-zero content")
def _(c, rec):
    shape = (c["p"],) if c["nd"] == 1 else (c["n"], c["p"])
    z = build(c, shape)
    keep = z.copy()
    r = arr(sut(M.arraytoreal, z), shape[:-1]+(2*c["p"],), "real equivalent",
            cplx=False)
    same(r[..., :c["p"]], z.real, "first half of the real equivalent")
    same(r[..., c["p"]:], z.imag, "second half of the real equivalent")
    back = arr(sut(M.arraytocomplex, r), shape, "recovered array", cplx=True)
    same(back, z, "complex -> real -> complex")
    same(sut(M.arraytoreal, back), r, "real -> complex -> real")
    same(sut(M.arraytoreal, r), r, "real array through arraytoreal")
    same(sut(M.arraytocomplex, z), z, "complex array through arraytocomplex")
    same(z, keep, "input array after mapping")
    rec.nt(c["p"] > 1 and c["content"] != "zeros")
    rec.label("nd=%d" % c["nd"], c["content"], c["dtype"])


@st.composite
def covs(draw):
    return {"p": draw(st.one_of(st.integers(1, 6), st.integers(1, 40))),
            "key": draw(gen.KEY), "exp": draw(st.integers(-100, 100)),
            "hermitian": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["complex128", "complex128",
                                           "complex64"])),
            "k": draw(gen.size(1, 5, 300, 12)),
            "content": draw(st.sampled_from(
                ["normal", "normal", "wide", "realvalued", "integers"])),
            "layout": draw(st.sampled_from(gen.LAYOUTS))}


def build_cov(c, tag="a"):
    p = c["p"]
    a = build(dict(c, layout="C"), (p, p), tag)
    if c["hermitian"]:
        a = (a + a.conj().T)/2
    return gen.layout(a.astype(c["dtype"]), c["layout"])


@sub("C01", "matrix_round_trip", covs(), quick=500,
     rule="a matrix larger than 1x1 with an imaginary part")
def _(c, rec):
    p = c["p"]
    a = build_cov(c)
    keep = a.copy()
    r = arr(sut(M.covariancetoreal, a), (2*p, 2*p), "real equivalent",
            cplx=False)
    b = arr(sut(M.covariancetocomplex, r), (p, p), "recovered matrix",
            cplx=True)
    same(b, a, "complex -> real -> complex matrix")
    same(sut(M.covariancetoreal, b), r, "real -> complex -> real matrix")
    if c["hermitian"]:
        same(r, r.T, "real equivalent of a Hermitian matrix vs its transpose")
    same(sut(M.covariancetoreal, r), r, "real matrix through covariancetoreal")
    same(sut(M.covariancetocomplex, a), a,
         "complex matrix through covariancetocomplex")
    same(a, keep, "input matrix after mapping")
    rec.nt(p > 1 and np.any(a.imag != 0))
    rec.label("hermitian" if c["hermitian"] else "general", c["dtype"])


@sub("C01", "stack_is_matrixwise", covs(), quick=250,
     rule="at least two different matrices in the stack")
def _(c, rec):
    p, k = c["p"], c["k"]
    if k > 5:
        p = min(p, 3)
        c = dict(c, p=p)
    s = np.stack([build_cov(dict(c, layout="C"), "s%d" % i) for i in range(k)])
    s = gen.layout(s, c["layout"])
    r = arr(sut(M.covariancestoreal, s), (k, 2*p, 2*p), "stack real equivalent",
            cplx=False)
    for i in range(k):
        same(r[i], sut(M.covariancetoreal, s[i]), "slice %d of the stack" % i)
    b = arr(sut(M.covariancestocomplex, r), (k, p, p), "stack recovered",
            cplx=True)
    same(b, s, "stack complex -> real -> complex")
    same(sut(M.covariancestoreal, r), r, "real stack through covariancestoreal")
    same(sut(M.covariancestocomplex, s), s,
         "complex stack through covariancestocomplex")
    rec.nt(k > 1)


@st.composite
def laws(draw):
    return {"p": draw(st.one_of(st.integers(1, 6), st.integers(1, 25))),
            "key": draw(gen.KEY), "cov": draw(gen.cov_spec(3, 3))}


@sub("C01", "model_equivalence", laws(), quick=300,
     rule="p > 1 and a genuinely complex matrix")
def _(c, rec):
    p = c["p"]
    s = gen.cov(c["cov"], p, True)
    x = gen.normal(c["key"], "x", (p,), True)
    r = arr(sut(M.covariancetoreal, s), (2*p, 2*p), "real equivalent")
    posdef(r, "real equivalent of a positive definite matrix")
    xr = arr(sut(M.arraytoreal, x), (2*p,), "real equivalent of a vector")
    q = np.real(x.conj() @ np.linalg.solve(s, x))
    close(xr @ np.linalg.solve(r, xr), 2*q, 1e-8, "quadratic form")
    close(np.linalg.slogdet(r)[1], 2*np.linalg.slogdet(s)[1] - 2*p*np.log(2),
          1e-8, "log-determinant", floor=1)
    close(np.linalg.eigvalsh(r), np.sort(np.repeat(
        np.linalg.eigvalsh(s), 2))/2, 1e-9, "spectrum")
    close(2*r @ xr, sut(M.arraytoreal, s @ x), 1e-10, "linear action")
    rec.nt(p > 1 and np.any(np.abs(s.imag) > 0))
    rec.label("cov="+c["cov"]["kind"])


@st.composite
def bad(draw):
    return {"what": draw(st.sampled_from(
        ["arraytoreal", "arraytocomplex", "arraytocomplex_odd",
         "covariancetoreal", "covariancetocomplex", "covariancetocomplex_odd",
         "covariancestoreal", "covariancestocomplex",
         "covariancestocomplex_odd"])),
        "a": draw(st.integers(1, 6)), "b": draw(st.integers(1, 6)),
        "k": draw(st.integers(1, 4)), "nd": draw(st.sampled_from([3, 4])),
        "odd": draw(st.one_of(st.sampled_from([1, 3]), st.integers(0, 8).map(
            lambda i: 2*i+1))),
        "vec": draw(st.booleans()), "key": draw(gen.KEY)}


@sub("C01", "unsupported_shapes_rejected", bad(), quick=400,
     rule="every case (each is an unsupported shape)")
def _(c, rec):
    w, k = c["what"], c["key"]

    def z(*shape):
        return gen.normal(k, "z", shape, True)

    a, b = c["a"], c["b"]
    if a == b:
        b = a + 1
    nd = (2,)*(c["nd"]-2) + (2*a, 2*b)
    if w == "arraytoreal":
        rejects(M.arraytoreal, z(*nd), exc=AttributeError)
    elif w == "arraytocomplex":
        rejects(M.arraytocomplex, z(*nd).real, exc=AttributeError)
    elif w == "arraytocomplex_odd":
        sh = (c["odd"],) if c["vec"] else (c["k"], c["odd"])
        rejects(M.arraytocomplex, z(*sh).real, exc=AttributeError)
    elif w == "covariancetoreal":
        sh = {0: (a,), 1: (a, b), 2: (c["k"], a, a)}[k % 3]
        rejects(M.covariancetoreal, z(*sh), exc=AttributeError)
    elif w == "covariancetocomplex":
        sh = {0: (2*a,), 1: (2*a, 2*b), 2: (c["k"], 2*a, 2*a)}[k % 3]
        rejects(M.covariancetocomplex, z(*sh).real, exc=AttributeError)
    elif w == "covariancetocomplex_odd":
        rejects(M.covariancetocomplex, z(c["odd"], c["odd"]).real,
                exc=AttributeError)
    elif w == "covariancestoreal":
        sh = {0: (a,), 1: (a, a), 2: (c["k"], 2, a, a)}[k % 3]
        rejects(M.covariancestoreal, z(*sh), exc=AttributeError)
    elif w == "covariancestocomplex":
        sh = {0: (2*a,), 1: (2*a, 2*a), 2: (c["k"], 2, 2*a, 2*a)}[k % 3]
        rejects(M.covariancestocomplex, z(*sh).real, exc=AttributeError)
    else:
        rejects(M.covariancestocomplex, z(c["k"], c["odd"], c["odd"]).real,
                exc=AttributeError)
    rec.nt()
    rec.label(w)


@st.composite
def preds(draw):
    return {"p": draw(st.integers(2, 12)), "key": draw(gen.KEY),
            "i": draw(st.integers(0, 10**6)), "j": draw(st.integers(0, 10**6)),
            "kind": draw(st.sampled_from(
                ["exact", "below", "above", "imagdiag", "symmetric_complex"])),
            "cplx": draw(st.booleans()), "q": draw(st.integers(1, 12))}


@sub("C01", "structure_predicates", preds(), quick=300,
     rule="every case (p > 1)")
def _(c, rec):
    p = c["p"]
    a = gen.normal(c["key"], "a", (p, p), c["cplx"])
    a = a + a.conj().T + 3*np.eye(p)
    i, j = c["i"] % p, c["j"] % p
    if i == j:
        j = (i+1) % p
    ok = True
    if c["kind"] == "below":
        a[i, j] += 1e-9
    elif c["kind"] == "above":
        a[i, j] += 1e-2*(1+abs(a[i, j]))
        ok = False
    elif c["kind"] == "imagdiag":
        a = a.astype(complex)
        a[i, i] += 1j
        ok = False
    elif c["kind"] == "symmetric_complex":
        a = a.astype(complex)
        a[i, j] = 1+2j
        a[j, i] = 1+2j
        ok = False
    need(bool(sut(M.check_Hermitian, a)) == ok,
         "check_Hermitian says %s" % (not ok))
    sym = np.allclose(a, a.T, rtol=1e-5, atol=1e-8)
    need(bool(sut(M.check_Symmetric, a)) == sym,
         "check_Symmetric says %s" % (not sym))
    need(bool(sut(M.iscovariance, a)) is True, "square matrix not recognised")
    q = c["q"] if c["q"] != p else p+1
    need(not sut(M.iscovariance, np.zeros((p, q))), "p x q accepted as square")
    need(not sut(M.iscovariance, np.zeros(p)), "vector accepted as square")
    need(not sut(M.iscovariance, np.zeros((2, p, p))), "stack accepted")
    rec.nt()
    rec.label(c["kind"])


@st.composite
def tolerances(draw):
    return {"p": draw(st.one_of(st.integers(1, 8), st.integers(1, 40))),
            "key": draw(gen.KEY), "which": draw(st.sampled_from(
                ["Hermitian", "Symmetric"])), "cplx": draw(st.booleans()),
            "rtol": draw(st.sampled_from([None, 0, 1e-12, 1e-5, 1e-3, .1])),
            "atol": draw(st.sampled_from([None, 0, 1e-12, 1e-8, 1e-3, 1., 30.])),
            "logs": draw(st.integers(-8, 8)), "inside": draw(st.booleans()),
            "imag": draw(st.booleans()), "many": draw(st.booleans()),
            "how": draw(st.sampled_from(["keyword", "keyword", "position"])),
            "i": draw(st.integers(0, 10**6)), "j": draw(st.integers(0, 10**6))}


@sub("C01", "predicates_at_the_tolerance_asked", tolerances(), quick=400,
     rule="p > 1, tolerance other than the default")
def _(c, rec):
    # entries of modulus within [s, 3s], one pair (or all the pairs) moved by
    # a fifth of the tolerance, or by five times the largest tolerance
    p = c["p"]
    g = gen.rng(c["key"], "t")
    s = 10.0**c["logs"]
    a = s*(1 + 2*g.random((p, p)))
    if c["cplx"]:
        a = a*np.exp(2j*np.pi*g.random((p, p)))
    herm_ = c["which"] == "Hermitian"
    t = np.tril(a, -1)
    up = t.conj().T if herm_ else t.T
    d = np.diag(np.real(np.diag(a)) if herm_ else np.diag(a))
    a = t + up + d
    rtol = 1e-5 if c["rtol"] is None else c["rtol"]
    atol = 1e-8 if c["atol"] is None else c["atol"]
    low, high = atol + rtol*np.min(np.abs(a)), atol + rtol*4*np.max(np.abs(a))
    inside = c["inside"] or p == 1
    move = low/5 if inside else 5*high + 1e-13*s
    if inside and move < 1e-14*s:
        move = 0
    move = move*(1j if c["cplx"] and c["imag"] else 1)
    i, j = c["i"] % p, c["j"] % p
    if i == j:
        j = (i+1) % p
    if p > 1 and c["many"]:
        a[np.triu_indices(p, 1)] += move
    elif p > 1:
        a[i, j] += move
    if move != 0 and not inside and a.dtype.kind == "c":
        # what matters is how far the pair is apart
        b = a.conj().T if herm_ else a.T
        inside = bool(np.all(np.abs(a-b) <= atol + rtol*np.abs(b)))
    f = M.check_Hermitian if herm_ else M.check_Symmetric
    k = {n: c[n] for n in ("rtol", "atol") if c[n] is not None}
    if c["how"] == "position":
        r = sut(f, a, rtol, atol)
    else:
        r = sut(f, a, **k)
    need(bool(r) == inside, lambda: "check_%s(rtol=%g, atol=%g) says %s of a "
         "matrix of size %g moved by %g" % (c["which"], rtol, atol, bool(r),
                                            s, abs(move)))
    rec.nt(p > 1 and (c["rtol"], c["atol"]) != (None, None))
    rec.label(c["which"], "inside" if inside else "outside",
              "rtol=%s" % c["rtol"], "atol=%s" % c["atol"])
