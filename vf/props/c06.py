"""C06: vec / vech, Toeplitz, Hermitian parts."""
import numpy as np
from hypothesis import strategies as st

from robuststats.utils import linalg as L

from .. import gen
from ..core import META, arr, close, need, rejects, same, sub, sut

META["C06"] = {"assumptions": []}
DT = ["float64", "float32", "complex128", "complex64", "int64"]


@st.composite
def case(draw, pmax=12):
    return {"p": draw(gen.size(1, pmax, 60)), "q": draw(gen.size(1, pmax, 60)),
            "key": draw(gen.KEY), "dtype": draw(st.sampled_from(DT)),
            "layout": draw(st.sampled_from(gen.LAYOUTS)),
            "logs": draw(st.integers(-8, 8))}


def content(c, shape, tag="a"):
    dt = np.dtype(c["dtype"])
    if dt.kind == "i":
        return gen.rng(c["key"], tag).integers(-99, 99, shape)
    return (10.0**c["logs"]*gen.normal(
        c["key"], tag, shape, dt.kind == "c")).astype(dt)


def hermitian(c, p, tag="h"):
    a = content(c, (p, p), tag)
    t = np.tril(a, -1)
    return t + t.conj().T + np.diag(np.real(np.diag(a))).astype(a.dtype)


@sub("C06", "vec_stacks_columns", case(), quick=250, rule="p > 1 and q > 1")
def _(c, rec):
    p, q = c["p"], c["q"]
    a = gen.layout(content(c, (p, q)), c["layout"])
    v = arr(sut(L.vec, a), (p*q,), "vec")
    need(v.dtype == a.dtype, "vec changes the type")
    same(v, np.concatenate([a[:, j] for j in range(q)]), "vec")
    s = gen.layout(content(c, (p, p), "s"), c["layout"])
    r = sut(L.unvec, sut(L.vec, s))
    need(np.asarray(r).dtype == s.dtype, "unvec changes the type")
    same(r, s, "unvec(vec(M))")
    w = content(c, (p*p,), "w")
    r = np.asarray(sut(L.unvec, w))
    same(r, np.array([[w[j*p+i] for j in range(p)] for i in range(p)]),
         "unvec")
    same(sut(L.vec, r), w, "vec(unvec(v))")
    if c["key"] % 2:
        n = p*p + 1 + c["key"] % (2*p)
        rejects(L.unvec, content(c, (n,), "bad"), what="unvec of length that "
                "is not a square")
    rec.nt(p > 1 and q > 1)
    rec.label(c["dtype"], c["layout"])


@sub("C06", "vec_identities", case(6), quick=80, rule="p > 1 and q > 1")
def _(c, rec):
    # vec(A X B) = (B^T kron A) vec X, and <A, B> = vec(A)^H vec(B)
    p, q = c["p"], c["q"]
    a = gen.normal(c["key"], "A", (p, p), True)
    x = gen.normal(c["key"], "X", (p, q), True)
    b = gen.normal(c["key"], "B", (q, q), True)
    close(sut(L.vec, a @ x @ b), np.kron(b.T, a) @ sut(L.vec, x), 1e-12,
          "vec(AXB)")
    rec.nt(p > 1 and q > 1)


@sub("C06", "vech_keeps_the_lower_triangle", case(), quick=250, rule="p > 1")
def _(c, rec):
    p = c["p"]
    a = gen.layout(content(c, (p, p)), c["layout"])
    v = arr(sut(L.vech, a), (p*(p+1)//2,), "vech")
    need(v.dtype == a.dtype, "vech changes the type")
    same(v, np.concatenate([a[j:, j] for j in range(p)]), "vech")
    rec.nt(p > 1)
    rec.label(c["dtype"], c["layout"])


@sub("C06", "vech_round_trip", case(), quick=300,
     rule="p > 1 and complex type")
def _(c, rec):
    p = c["p"]
    h = gen.layout(hermitian(c, p), c["layout"])
    r = np.asarray(sut(L.unvech, sut(L.vech, h)))
    need(r.dtype == h.dtype, "unvech changes the type")
    same(r, h, "unvech(vech(H))")
    v = content(c, (p*(p+1)//2,), "v")
    d = np.cumsum([0] + list(range(p, 1, -1)))
    v[d] = v[d].real                        # a Hermitian matrix has real diagonal
    m = np.asarray(sut(L.unvech, v))
    same(m, m.conj().T, "unvech is Hermitian")
    same(sut(L.vech, m), v, "vech(unvech(v))")
    rec.nt(p > 1 and np.dtype(c["dtype"]).kind == "c")
    rec.label(c["dtype"], c["layout"])


@st.composite
def toep(draw):
    return {"p": draw(gen.size(1, 12, 250)),
            "re": draw(st.integers(-100, 100)),
            "im": draw(st.one_of(st.just(0), st.integers(-100, 100))),
            "dtype": draw(st.sampled_from(["default", "complex", "float",
                                           "complex64", "float32"]))}


@sub("C06", "toeplitz", toep(), quick=200, rule="p > 1 with complex rho")
def _(c, rec):
    p = c["p"]
    rho = complex(c["re"], c["im"])/110
    dt = {"default": complex, "complex": complex, "float": float,
          "complex64": np.complex64, "float32": np.float32}[c["dtype"]]
    if np.dtype(dt).kind == "f" or c["im"] == 0:
        rho = rho.real
    m = arr(sut(L.ToeplitzMatrix, rho, p) if c["dtype"] == "default" else
            sut(L.ToeplitzMatrix, rho, p, dt), (p, p), "Toeplitz")
    need(m.dtype == np.dtype(dt), "Toeplitz type is %s, asked %s" % (
        m.dtype, np.dtype(dt)))
    ref = np.array([[rho**(i-j) if i >= j else np.conj(rho)**(j-i)
                     for j in range(p)] for i in range(p)])
    close(m, ref.astype(dt), 1e-6 if "32" in str(m.dtype) or
          m.dtype == np.complex64 else 1e-12, "Toeplitz entries")
    # each entry to its own precision, far from the diagonal too
    single = m.dtype in (np.float32, np.complex64)
    tiny = 1e-37 if single else 1e-300
    d = np.abs(m - ref)
    need(np.all(d <= (1e-5 if single else 1e-10)*np.abs(ref) + tiny),
         lambda: "Toeplitz entries at lag %s are wrong" % np.unique(np.abs(
             np.subtract(*np.nonzero(d > (1e-5 if single else 1e-10) *
                                     np.abs(ref) + tiny))))[:9])
    if abs(rho) < .95:
        w = np.linalg.eigvalsh(m.astype(complex))
        need(np.all(w > -1e-6), "Toeplitz matrix is not positive semidefinite")
    rec.nt(p > 1 and np.iscomplexobj(np.asarray(rho)))
    rec.label(c["dtype"])


@st.composite
def multi(draw):
    return {"p": draw(gen.size(1, 7, 20)), "q": draw(gen.size(1, 7, 20)),
            "k": draw(gen.size(0, 6, 80)), "key": draw(gen.KEY),
            "dtype": draw(st.sampled_from(DT)),
            "layout": draw(st.sampled_from(gen.LAYOUTS)),
            "logs": draw(st.integers(-8, 8)),
            "autograd": draw(st.booleans())}


@sub("C06", "hermitian_parts_slice_by_slice", multi(), quick=250,
     rule="stack of at least two with p > 1")
def _(c, rec):
    p, q, k = c["p"], c["q"], c["k"]
    ag = c["autograd"]
    sh = (k, p, p) if k else (p, p)
    a = gen.layout(content(c, sh), c["layout"])
    r = arr(sut(L.multiherm, a, ag), sh, "multiherm")
    f = np.reshape(a, (-1, p, p))
    ref = np.array([.5*(x + np.conj(x.T)) for x in f]).reshape(sh)
    same(r, ref, "multiherm")
    b = gen.layout(content(c, (k, p, q) if k else (p, q), "b"), c["layout"])
    g = np.reshape(b, (-1, p, q))
    r = arr(sut(L.multihconj, b, ag), ((k,) if k else ()) + (q, p),
            "multihconj")
    same(r, np.array([np.conj(x.T) for x in g]).reshape(r.shape),
         "multihconj")
    one = f[0]
    h = arr(sut(L.hermitian, one, ag), (p, p), "hermitian")
    same(h, .5*(one + np.conj(one.T)), "Hermitian part")
    close(sut(L.hermitian, h, ag), h, 1e-7, "Hermitian part twice")
    rec.nt(k > 1 and p > 1)
    rec.label(c["dtype"], "k=%d" % k, c["layout"])
