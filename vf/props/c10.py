"""C10: strictly positive vectors with the logarithmic geometry."""
import numpy as np
from hypothesis import strategies as st

from robuststats.models.manifolds import StrictlyPositiveVectors as SPV

from .. import gen
from ..core import META, absclose, arr, close, need, sub, sut
from . import geo

META["C10"] = {"assumptions": [
    "entries between 1e-6 and 1e6, relative tangent entries up to 4",
    "columns are separate points: inner products, norms and distances are "
    "one value per column"]}


@st.composite
def case(draw):
    return {"n": draw(gen.size(1, 5, 60)),
            "k": draw(st.one_of(*[st.sampled_from([1, 1, 2, 3, 7])]*7 + [
                st.integers(5, 60)])),
            "key": draw(gen.KEY), "spread": draw(st.integers(0, 12))/2,
            "size": draw(st.sampled_from([.01, .3, 1, 4])),
            "layout": draw(st.sampled_from(gen.LAYOUTS))}


class Setup:
    def __init__(self, c, rec):
        n, k = self.n, self.k = c["n"], c["k"]
        self.man = sut(SPV, n, k) if k > 1 or c["key"] % 2 else sut(SPV, n)

        def pt(t):
            return np.exp(np.log(10)*c["spread"]*(
                2*gen.rng(c["key"], t).random((n, k))-1))

        def tv(t):
            return self.x*c["size"]*np.clip(gen.normal(
                c["key"], t, (n, k)), -3, 3)
        self.x, self.y, self.z = pt("x"), pt("y"), pt("z")
        self.u, self.v = tv("u"), tv("v")
        self.lay = c["layout"]
        rec.nt(n > 1 and c["spread"] > 0)
        rec.label("k=%d" % k, "n=%s" % ("1" if n == 1 else ">1"))

    def i(self, a):
        return gen.layout(a, self.lay)

    def o(self, a, what):
        return arr(a, (self.n, self.k), what, cplx=False)

    def cols(self, a, what):
        return arr(a, (1, self.k), what, cplx=False)


RULE = "n > 1, non-constant point"


@sub("C10", "log_coordinates", case(), quick=300, rule=RULE)
def _(c, rec):
    # in t = log x everything is Euclidean
    s = Setup(c, rec)
    x, y, u, v = s.i(s.x), s.i(s.y), s.i(s.u), s.i(s.v)
    tol = 1e-12
    e = s.o(sut(s.man.exp, x, u), "exp")
    need(np.all(e > 0), "exponential leaves the positive vectors")
    close(np.log(e), np.log(s.x) + s.u/s.x, 1e-11, "log of exp", floor=1)
    lg = s.o(sut(s.man.log, x, y), "log")
    close(lg/s.x, np.log(s.y/s.x), 1e-11, "log", floor=1e-3)
    close(np.log(s.o(sut(s.man.exp, x, lg), "exp")), np.log(s.y), 1e-11,
          "exp_x(log_x(y))", floor=1)
    close(s.o(sut(s.man.log, x, e), "log")/s.x, s.u/s.x, 1e-9,
          "log_x(exp_x(u))", floor=1e-2)
    d = s.cols(sut(s.man.dist, x, y), "distance")
    close(d, np.sqrt(np.sum(np.log(s.y/s.x)**2, 0, keepdims=True)), 1e-11,
          "distance", floor=1e-3)
    close(s.cols(sut(s.man.norm, x, lg), "norm of log"), d, 1e-10,
          "norm of the logarithm", floor=1e-3)
    close(s.cols(sut(s.man.dist, y, x), "distance"), d, tol,
          "distance symmetric", floor=1e-3)
    need(np.all(np.abs(sut(s.man.dist, x, x)) == 0), "distance to itself")
    a, b = sut(s.man.dist, x, s.z), sut(s.man.dist, s.z, y)
    need(np.all(d <= (a+b)*(1+1e-12)), "triangle inequality fails")
    close(s.cols(sut(s.man.inner, x, u, v), "inner"),
          np.sum((s.u/s.x)*(s.v/s.x), 0, keepdims=True), 1e-11,
          "inner product", floor=c["size"]**2)
    close(s.cols(sut(s.man.norm, x, u), "norm"),
          np.sqrt(np.sum((s.u/s.x)**2, 0, keepdims=True)), 1e-11, "norm")


@sub("C10", "transport_and_retraction", case(), quick=200, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, y, u, v = s.i(s.x), s.i(s.y), s.i(s.u), s.i(s.v)
    tu = s.o(sut(s.man.transp, x, y, u), "transport")
    tv = s.o(sut(s.man.transp, x, y, v), "transport")
    close(tu/s.y, s.u/s.x, 1e-11, "transport")
    close(np.sum(tu*tv/s.y**2, 0), np.sum(s.u*s.v/s.x**2, 0), 1e-11,
          "transport is an isometry", floor=c["size"]**2)
    close(s.o(sut(s.man.transp, y, x, tu), "back"), s.u, 1e-11,
          "transport there and back")
    for t in (1e-2, .1):
        w = t*np.clip(gen.normal(c["key"], "r", s.x.shape), -1, 1)
        r = s.o(sut(s.man.retr, x, s.i(s.x*w)), "retr")
        need(np.max(np.abs(r/s.x - np.exp(w))) <= t**3/5 + 1e-13,
             "retraction departs from the exponential")
    r = s.o(sut(s.man.retr, x, u), "retr")
    need(np.all(r > 0), "retraction leaves the positive vectors")
    zero = s.o(sut(s.man.zerovec, x), "zerovec")
    need(not np.any(zero), "zero vector is not zero")
    close(sut(s.man.retr, x, zero), s.x, 1e-14, "retr_x(0)")
    close(sut(s.man.exp, x, zero), s.x, 1e-14, "exp_x(0)")
    close(sut(s.man.proj, x, u), s.u, 1e-14, "projection")


@sub("C10", "gradient_and_hessian_conversion", case(), quick=200, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, u, v = s.i(s.x), s.i(s.u), s.i(s.v)
    g = gen.normal(c["key"], "G", s.x.shape)/s.x
    rg = s.o(sut(s.man.egrad2rgrad, x, s.i(g)), "gradient")
    n = np.sum(np.abs(g*s.v)) + 1e-300
    need(abs(np.sum(rg*s.v/s.x**2) - np.sum(g*s.v)) <= 1e-11*n,
         "converted gradient does not represent the derivative")
    eh = gen.normal(c["key"], "E", s.x.shape)/s.x**2
    hu = s.o(sut(s.man.ehess2rhess, x, s.i(g), s.i(eh*s.u), u), "Hessian")
    # f along x exp(t w): f'' = eh (x w)^2 + g x w^2, polarised
    ref = np.sum(eh*s.u*s.v + g*s.u*s.v/s.x)
    n = np.sum(np.abs(eh*s.u*s.v) + np.abs(g*s.u*s.v/s.x)) + 1e-300
    need(abs(np.sum(hu*s.v/s.x**2) - ref) <= 1e-11*n,
         "converted Hessian is not the second covariant derivative")


@sub("C10", "random_points_and_vectors", case(), quick=150, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    p = s.o(sut(s.man.rand), "random point")
    need(np.all(p > 0), "random point is not positive")
    need(not np.array_equal(p, sut(s.man.rand)), "random points repeat")
    need(len(np.unique(p)) == p.size, "entries of a random point repeat")
    u = s.o(sut(s.man.randvec, s.i(s.x)), "random tangent vector")
    close(np.sqrt(np.sum((u/s.x)**2, 0)), np.ones(s.k), 1e-10,
          "norm of a random tangent vector")
    if s.n > 1:
        need(not np.array_equal(u, sut(s.man.randvec, s.i(s.x))),
             "random tangent vectors repeat")
    need(s.man.dim == s.n*s.k, "dimension is %s, not %d" % (
        s.man.dim, s.n*s.k))
    close(np.float64(s.man.typicaldist), np.sqrt(s.n*s.k), 1e-12,
          "typical distance")


@sub("C10", "columns_are_separate", case(), quick=150,
     rule="at least two columns")
def _(c, rec):
    c = dict(c, k=max(c["k"], 2))
    s = Setup(c, rec)
    one = sut(SPV, s.n)
    for name, f in (("exp", lambda m, a, b, d: m.exp(a, d)),
                    ("log", lambda m, a, b, d: m.log(a, b)),
                    ("retr", lambda m, a, b, d: m.retr(a, d)),
                    ("transp", lambda m, a, b, d: m.transp(a, b, d)),
                    ("inner", lambda m, a, b, d: m.inner(a, d, d)),
                    ("norm", lambda m, a, b, d: m.norm(a, d)),
                    ("dist", lambda m, a, b, d: m.dist(a, b)),
                    ("egrad2rgrad", lambda m, a, b, d: m.egrad2rgrad(a, d))):
        full = np.asarray(sut(f, s.man, s.x, s.y, s.u))
        part = np.concatenate([np.asarray(sut(
            f, one, s.x[:, [j]], s.y[:, [j]], s.u[:, [j]]))
            for j in range(s.k)], axis=1)
        close(full, part, 1e-13, name + " column by column")
    rec.nt()


@sub("C10", "nearby_points_and_small_vectors", st.tuples(
    case(), st.sampled_from(geo.STEPS), st.sampled_from(geo.FACTORS)),
    quick=250, rule=RULE)
def _(c, rec):
    c, t, f = c
    c = dict(c, size=1)
    s = Setup(c, rec)
    rec.label("t=%g" % t, "f=%g" % f)
    x, y, v = s.i(s.x), s.i(s.y), s.i(s.v)
    ab = 1e-15*(10 + 10*c["spread"])
    w = s.u/s.x
    z = s.i(s.x*np.exp(t*w))
    absclose(s.cols(sut(s.man.dist, x, z), "distance"),
             t*np.sqrt(np.sum(w**2, 0, keepdims=True)), ab*s.n,
             "distance of close points")
    absclose(s.o(sut(s.man.log, x, z), "log")/s.x, t*w, ab,
             "logarithm of a close point")
    absclose(s.o(sut(s.man.exp, x, s.i(t*s.u)), "exp")/s.x, np.exp(t*w), ab,
             "exponential of a short vector")
    absclose(s.o(sut(s.man.retr, x, s.i(t*s.u)), "retr")/s.x, np.exp(t*w),
             ab + 5*t**3, "retraction of a short vector")
    absclose(s.o(sut(s.man.transp, x, z, v), "transport")/s.x,
             s.v/s.x*np.exp(t*w), 10*ab, "short transport")
    g = gen.normal(c["key"], "small", s.x.shape)
    for name, op, a in (
            ("transport", lambda q: sut(s.man.transp, x, y, s.i(q)), s.u),
            ("projection", lambda q: sut(s.man.proj, x, s.i(q)), g),
            ("gradient", lambda q: sut(s.man.egrad2rgrad, x, s.i(q)), g),
            ("norm", lambda q: sut(s.man.norm, x, s.i(q)), s.u)):
        geo.homogeneous(op, a, f, 1e-13, name)
    geo.homogeneous(lambda q: sut(s.man.inner, x, s.i(q), s.i(s.u)), s.u, f,
                    1e-12, "inner product")
    eg, eh = gen.normal(c["key"], "eg", s.x.shape), gen.normal(
        c["key"], "eh", s.x.shape)
    geo.homogeneous(lambda q: sut(s.man.ehess2rhess, x, s.i(eg), s.i(
        eh*q/s.x), s.i(q)), s.u, f, 1e-12, "Hessian")


@sub("C10", "far_points_and_long_vectors", st.tuples(
    case(), st.sampled_from([8, 15, 30]), st.sampled_from([10, 30, 80])),
    quick=200, rule="n > 1")
def _(c, rec):
    c, spread, size = c
    s = Setup(dict(c, spread=spread, size=1), rec)
    rec.nt(s.n > 1)
    rec.label("10^+-%d" % spread, "size=%d" % size)
    x, y, v = s.i(s.x), s.i(s.y), s.i(s.v)
    # relative tangent entries of any size up to `size`, of both signs
    w = size*(2*gen.rng(c["key"], "w").random(s.x.shape)-1)
    ly = np.log(s.y) - np.log(s.x)
    lg = s.o(sut(s.man.log, x, y), "log")
    close(lg/s.x, ly, 1e-12, "log")
    absclose(np.log(s.o(sut(s.man.exp, x, s.i(lg)), "exp")), np.log(s.y),
             1e-11, "exp_x(log_x(y))")
    close(s.cols(sut(s.man.dist, x, y), "distance"),
          np.sqrt(np.sum(ly**2, 0, keepdims=True)), 1e-12, "distance")
    e = s.o(sut(s.man.exp, x, s.i(s.x*w)), "exp")
    need(np.all(e > 0), "exponential leaves the positive vectors")
    absclose(np.log(e) - np.log(s.x), w, 1e-11, "exponential of a long "
             "vector")
    z = s.i(s.x*np.exp(w))
    close(s.o(sut(s.man.log, x, z), "log")/s.x, w, 1e-11, "logarithm of a "
          "far point", floor=1)
    close(s.cols(sut(s.man.dist, x, z), "distance"),
          np.sqrt(np.sum(w**2, 0, keepdims=True)), 1e-12, "distance of a far "
          "point", floor=1)
    r = s.o(sut(s.man.retr, x, s.i(s.x*w)), "retr")
    need(np.all(r > 0), "retraction leaves the positive vectors")
    # relative to each entry, as the entries differ by many decades
    t = s.o(sut(s.man.transp, x, y, v), "transport")
    absclose(t/s.y, s.v/s.x, 1e-11, "transport")
    absclose(s.o(sut(s.man.transp, y, x, s.i(t)), "back")/s.x, s.v/s.x,
             1e-11, "transport there and back")
    absclose(s.cols(sut(s.man.inner, x, s.i(s.x*w), v), "inner"),
             np.sum(w*s.v/s.x, 0, keepdims=True), 1e-12*size*s.n, "inner "
             "product")
    close(s.cols(sut(s.man.norm, x, s.i(s.x*w)), "norm"),
          np.sqrt(np.sum(w**2, 0, keepdims=True)), 1e-12, "norm")
    g = gen.normal(c["key"], "G", s.x.shape)
    absclose(s.o(sut(s.man.egrad2rgrad, x, s.i(g/s.x)), "gradient")/s.x, g,
             1e-12, "gradient")
