"""C21: feature arrays against a list of tuples."""
import numpy as np
from hypothesis import strategies as st

from robuststats.estimation import base as EB

from .. import ests, gen
from ..core import META, Violation, need, sub, sut

META["C21"] = {"assumptions": [
    "square components are either symmetric / skew-symmetric to rounding or "
    "far from it (vectorisation keeps one triangle of the former)",
    "the preallocation is the default one of 1000 points"]}

FA = getattr(EB, "_FeatureArray", None)
if FA is None:                                   # renamed: what features are
    FA = type(EB.FeaturesEstimation(ests.Scalar()).transform(
        np.ones((1, 2, 2))))

SHAPES = [[], [1], [3], [2, 2], [3, 3], [2, 3], [1, 1], [2, 2, 2]]


@st.composite
def history(draw):
    k = draw(st.integers(1, 3))
    comps = [{"shape": draw(st.sampled_from(SHAPES)),
              "dtype": draw(st.sampled_from(["float64", "complex128",
                                             "int64", "float32"])),
              "kind": draw(st.sampled_from(["gen", "gen", "sym", "skew"]))}
             for _ in range(k)]
    size = st.one_of(st.integers(1, 4), st.integers(1, 4),
                     st.sampled_from([400, 999, 1000, 1001, 2000, 2001,
                                      3500]))
    op = st.one_of(
        st.tuples(st.just("single"), st.sampled_from(["list", "tuple",
                                                      "bare"])),
        st.tuples(st.just("batch"), size, st.sampled_from(gen.LAYOUTS)),
        st.tuples(st.just("batch"), size, st.sampled_from(gen.LAYOUTS)),
        st.tuples(st.just("array"), size),
        st.tuples(st.just("self")),
        st.tuples(st.just("mixed"), st.integers(1, 3)),
        st.tuples(st.just("bad"), st.sampled_from(
            ["count", "shape", "axes", "length", "dtype", "type",
             "component type", "other array", "last shape"]),
            st.integers(0, 2)),
        st.tuples(st.just("scribble")),
        st.tuples(st.just("branch"), st.integers(-3, 3), st.integers(0, 3)))
    return {"comps": comps, "key": draw(gen.KEY),
            "ops": [list(o) for o in draw(st.lists(op, min_size=1,
                                                   max_size=8))]}


def make(c, tag, n, kinds=True):
    """n aligned points per component"""
    out = []
    for j, m in enumerate(c["comps"]):
        sh, t = tuple(m["shape"]), np.dtype(m["dtype"])
        a = 5*gen.normal(c["key"], "%s-%d" % (tag, j), (n,)+sh,
                         t.kind == "c")
        if t.kind == "i":
            a = np.round(10*a)
        if kinds and len(sh) == 2 and sh[0] == sh[1] and m["kind"] != "gen":
            h = np.swapaxes(a, 1, 2).conj()
            a = a + h if m["kind"] == "sym" else a - h
        out.append(a.astype(t))
    return out


class Model:
    def __init__(self, c):
        self.c = c
        self.parts = None

    def add(self, batch):
        batch = [np.array(b) for b in batch]
        self.parts = batch if self.parts is None else [
            np.concatenate([p, b]) for p, b in zip(self.parts, batch)]

    def __len__(self):
        return 0 if self.parts is None else len(self.parts[0])

    def vector(self):
        cols = []
        for a in self.parts:
            if a.ndim == 3 and a.shape[1] == a.shape[2]:
                h = np.swapaxes(a, 1, 2).conj()
                if (np.abs(a-h) < 1e-5).all() or (np.abs(a+h) < 1e-5).all():
                    i, j = np.triu_indices(a.shape[1])
                    a = a[:, i, j]
            cols.append(a.reshape(len(a), -1))
        return np.concatenate(cols, axis=1)


def eq(a, b, what):
    a = np.asarray(a)
    need(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b),
         lambda: "%s: got %s %s %s\n expected %s %s %s" % (
             what, a.dtype, a.shape, a[:3], b.dtype, b.shape, b[:3]))


def exported(f, k, n, what):
    """list of component batches, as export shows them"""
    out = sut(f.export)
    if k == 1:
        out = [out]
    need(len(out) == k, "%s: %d components exported, expected %d" % (
        what, len(out), k))
    # a single point is exported without batch axis
    return [np.asarray(o)[None] if n == 1 else np.asarray(o) for o in out]


def check(f, m, c, what, deep=True):
    need(sut(len, f) == len(m), lambda: "%s: length %d, expected %d" % (
        what, len(f), len(m)))
    k = len(c["comps"])
    need(sut(lambda: f.nb_manifolds) == k, "number of components")
    if len(m) == 0:
        return
    parts, n = m.parts, len(m)
    need(tuple(sut(lambda: f.shape)) == tuple(p.shape for p in parts),
         lambda: "%s: shape %s, expected %s" % (
             what, f.shape, [p.shape for p in parts]))
    need(tuple(sut(lambda: f.dtype)) == tuple(p.dtype for p in parts),
         lambda: "%s: types %s" % (what, f.dtype))
    for o, p in zip(exported(f, k, n, what), parts):
        eq(o, p, what + ": export")
    eq(sut(f.vectorize), m.vector(), what + ": vectorisation")
    if not deep:
        return
    r = gen.rng(c["key"], what)
    i = int(r.integers(-n, n))
    lo, hi = sorted(int(v) for v in r.integers(0, n+1, 2))
    mask = r.random(n) < .4
    keys = [i, np.int64(i), np.int32(0), -1, slice(None), slice(lo, hi),
            slice(hi, None), slice(None, None, -1), slice(lo, None, 2),
            slice(-2, None), [int(v) for v in r.integers(0, n, 3)],
            r.integers(-n, n, 4), mask]
    for key in keys:
        one = isinstance(key, (int, np.integer))
        want = [p[[int(key)]] if one else p[key] for p in parts]
        w = "%s: index %r" % (what, key)
        g = sut(f.__getitem__, key)
        need(type(g) is FA, w + ": not a feature array")
        need(len(g) == len(want[0]), lambda: "%s: length %d, expected %d" % (
            w, len(g), len(want[0])))
        if len(want[0]):
            need(tuple(g.shape) == tuple(p.shape for p in want), lambda:
                 "%s: shape %s" % (w, g.shape))
            for o, p in zip(exported(g, k, len(want[0]), w), want):
                eq(o, p, w)
    for bad in (n, -n-1, n+1000):
        try:
            f[bad]
        except IndexError:
            pass
        else:
            need(False, "%s: index %d of %d points is answered" % (
                what, bad, n))


def bad_append(c, m, kind, where, tag):
    """data that must be refused"""
    k = len(c["comps"])
    j = where % k
    b = make(c, tag, 2)
    if kind == "count":
        return (b + [b[0]]) if where % 2 or k == 1 else b[:-1]
    if kind in ("shape", "last shape"):
        j = k-1 if kind == "last shape" else j
        s = b[j].shape
        if len(s) == 1:
            return None
        b[j] = np.concatenate([b[j], b[j]], axis=-1) if where != 1 else \
            b[j][..., :0]
        return b
    if kind == "axes":
        b[j] = b[j][None, None]
        return b
    if kind == "length":
        if k == 1:
            return None
        b[j] = np.concatenate([b[j], b[j]])
        return b
    if kind == "dtype":
        if len(m) == 0:
            return None
        t = b[j].dtype
        near = {"float64": "float32", "complex128": "complex64",
                "float32": "float64", "int64": "int32"}.get(t.name, "float16")
        b[j] = b[j].astype([np.int8 if t.kind == "f" else np.float16, near,
                            near][where])
        return b
    if kind == "type":
        return ["text", 3.0, None][where]
    if kind == "component type":
        b[j] = [b[j].tolist(), None, "x"][where]
        return b
    if kind == "other array":
        f = FA((2,), (5, 7), (1,), (4,))
        f.append([np.ones(2), np.ones((5, 7)), np.ones(1), np.ones(4)])
        return f
    raise KeyError(kind)


@sub("C21", "histories", history(), quick=2000, shards=8,
     rule="at least two appends, or a refused one after an append")
def _(c, rec):
    f, m = sut(FA, *[tuple(s["shape"]) for s in c["comps"]]), Model(c)
    k = len(c["comps"])
    check(f, m, c, "new")
    given, appends = [], 0
    for i, op in enumerate(c["ops"]):
        tag = "op%d" % i
        what = "after %s (%d)" % (op, i)
        if op[0] == "single":
            b = make(c, tag, 1)
            d = [a[0] if a.ndim > 1 else np.array(a[0]) for a in b]
            given += d
            sut(f.append, d[0] if k == 1 and op[1] == "bare" else
                tuple(d) if op[1] == "tuple" else d)
            m.add(b)
        elif op[0] == "batch":
            d = [gen.layout(a, op[2]) for a in make(c, tag, op[1])]
            given += d
            sut(f.append, d[0] if k == 1 and i % 2 else d)
            m.add(d)
        elif op[0] == "mixed":
            # not symmetric any more
            d = make(c, tag, op[1], kinds=False)
            given += d
            sut(f.append, d)
            m.add(d)
        elif op[0] == "array":
            g = sut(FA, *[tuple(s["shape"]) for s in c["comps"]])
            d = make(c, tag, op[1])
            sut(g.append, d)
            sut(f.append, g)
            m.add(d)
            given += d
            more = make(c, tag+"more", 1)
            sut(g.append, more)            # the other array stays apart
            check(g, _model(c, d, more), c, "the appended array", False)
        elif op[0] == "self" and 0 < len(m) < 600:
            sut(f.append, f)
            m.add([p.copy() for p in m.parts])
        elif op[0] == "bad":
            b = bad_append(c, m, op[1], op[2], tag)
            if b is None:
                continue
            refused(f, b, what)
            rec.label("refused " + op[1])
            rec.nt(rec.nontrivial or len(m) > 0)
        elif op[0] == "scribble":
            for a in given:
                if a.flags.writeable:
                    a[...] = 77
        elif op[0] == "branch" and len(m) > 0:
            lo = max(0, min(len(m)-1, op[1] % len(m)))
            g = sut(f.__getitem__, slice(lo, None))
            more = make(c, tag, op[2])
            if op[2]:
                sut(g.append, more)
            check(g, _model(c, [p[lo:] for p in m.parts], more), c,
                  what + ": slice", False)
        if op[0] in ("single", "batch", "mixed", "array"):
            appends += 1
            rec.label("beyond capacity" if len(m) > 1000 else "within")
        check(f, m, c, what, deep=len(m) < 900 or i == len(c["ops"])-1)
    rec.nt(rec.nontrivial or appends > 1)
    rec.label("components=%d" % k)


def _model(c, *batches):
    m = Model(c)
    for b in batches:
        if len(b[0]):
            m.add(b)
    return m


def refused(f, b, what):
    try:
        f.append(b)
    except Violation:
        raise
    except Exception:                                         # noqa: BLE001
        return
    raise Violation("%s: accepted" % what)
