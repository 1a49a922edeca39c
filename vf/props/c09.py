"""C09: unit-determinant Hermitian positive definite matrices."""
import numpy as np
from hypothesis import strategies as st

from robuststats.models.manifolds import HermitianPositiveDefinite as HPD
from robuststats.models.manifolds import \
    SpecialHermitianPositiveDefinite as SHPD

from .. import gen
from ..core import META, arr, close, herm, need, sub, sut
from . import geo

META["C09"] = {"assumptions": [
    "points of condition number up to 1e3, tangent vectors of "
    "affine-invariant norm up to 4",
    "matrices of size one (a single point) are exercised for everything but "
    "random tangent vectors"]}


@st.composite
def case(draw, nmin=1):
    return {"n": draw(gen.size(nmin, 5, 20)),
            "k": draw(st.one_of(*[st.sampled_from([1, 1, 2, 3, 4])]*7 + [
                st.integers(5, 40)])),
            "key": draw(gen.KEY), "logc": draw(st.integers(0, 12))/4,
            "size": draw(st.sampled_from([.01, .3, 1, 2, 4])),
            "layout": draw(st.sampled_from(["C", "F", "readonly"]))}


class Setup:
    def __init__(self, c, rec):
        n, k = self.n, self.k = c["n"], c["k"]
        self.man = sut(SHPD, n, k) if k > 1 or c["key"] % 2 else sut(SHPD, n)
        self.x = geo.points(c["key"], "x", n, k, c["logc"], 1, True)
        self.y = geo.points(c["key"], "y", n, k, c["logc"], 1, True)
        self.u = geo.tangents(c["key"], "u", self.x, c["size"], True)
        self.v = geo.tangents(c["key"], "v", self.x, c["size"], True)
        self.layout = c["layout"]
        self.tol = 1e-9*10**(2*c["logc"])
        rec.nt(n > 1 and c["logc"] > 0)
        rec.label("k=%d" % k, "n=%d" % n, "size=%g" % c["size"])

    def i(self, a):
        return gen.layout(geo.squeeze(a, self.k), self.layout)

    def o(self, a, what, **kw):
        return geo.stack(a, self.k, self.n, what, **kw)

    def point(self, a, what):
        a = self.o(a, what)
        geo.pd(a, what)
        s, ld = np.linalg.slogdet(a)
        need(np.all(np.abs(ld) <= 10*self.tol), lambda: "%s has determinant "
             "%s" % (what, np.exp(ld)))
        return a

    def tangent(self, x, a, what):
        a = self.o(a, what)
        w = np.linalg.norm(geo.scaled(x, a))
        need(np.linalg.norm(geo.scaled(x, a - geo.H(a))) <=
             max(self.tol, 1e-9)*max(w, 1e-3), what + " is not Hermitian")
        t = np.trace(np.linalg.solve(x, a), axis1=-2, axis2=-1)
        need(np.all(np.abs(t) <= 10*self.tol*max(w, 1e-2)), lambda:
             "%s: trace of x^-1 u is %s" % (what, t))
        return a


RULE = "n > 1 and a base point other than the identity"


@sub("C09", "points_have_unit_determinant", case(), quick=250, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, u = s.i(s.x), s.i(s.u)
    e = s.point(sut(s.man.exp, x, u), "exp")
    geo.close_at(s.x, e, geo.exp(s.x, s.u), s.tol, "exp")
    r = s.point(sut(s.man.retr, x, u), "retr")
    for t in (1e-2, .1):
        w = geo.tangents(c["key"], "r", s.x, t, True)
        r = s.point(sut(s.man.retr, x, s.i(w)), "retr")
        d = np.max(np.linalg.norm(geo.scaled(s.x, r-geo.exp(s.x, w)),
                                  axis=(-2, -1)))
        need(d <= t**3/2.5 + 1e-11*10**(2*c["logc"]), lambda: "retraction "
             "departs from the exponential by %.3g at step %g" % (d, t))
    a = s.point(sut(s.man.rand), "random point")
    b = s.point(sut(s.man.rand), "random point")
    if s.n > 1:
        need(np.max(np.abs(a-b)) > 1e-12, "random points repeat")
        geo.generic(a, "random point")
    need(s.man.dim == s.k*(s.n**2-1), "dimension is %s, there are %d real "
         "degrees of freedom" % (s.man.dim, s.k*(s.n**2-1)))


@sub("C09", "projection_is_orthogonal", case(), quick=250, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x = s.i(s.x)
    g = geo.tangents(c["key"], "g", s.x, c["size"])       # ambient
    h = geo.tangents(c["key"], "h", s.x, c["size"])
    if c["key"] % 3 == 0:
        # any square matrix: the skew part is dropped as well
        k = gen.normal(c["key"], "skew", s.x.shape, True)
        p = s.tangent(s.x, sut(s.man.proj, x, s.i(g + k - geo.H(k))), "proj")
    else:
        p = s.tangent(s.x, sut(s.man.proj, x, s.i(g)), "proj")
    ref = g - np.real(np.trace(np.linalg.solve(s.x, g), axis1=-2, axis2=-1)
                      )[:, None, None]*s.x/s.n
    tol = s.tol*(1 + (100 if c["key"] % 3 == 0 else 0)/c["size"])
    geo.close_at(s.x, p, ref, tol, "projection", floor=c["size"])
    geo.close_at(s.x, s.tangent(s.x, sut(s.man.proj, x, s.i(p)), "proj"), p,
                 tol, "projection twice", floor=c["size"])
    q = s.tangent(s.x, sut(s.man.proj, x, s.i(h)), "proj")
    need(abs(geo.inner(s.x, ref - g, q)) <= tol*c["size"]**2*s.k*10,
         "projection residual is not orthogonal to the tangent space")
    geo.close_at(s.x, sut(s.man.proj, x, s.u if s.k > 1 else s.u[0]), s.u,
                 s.tol, "projection of a tangent vector", floor=c["size"])


@sub("C09", "ambient_geometry", case(), quick=250, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, y, u, v = s.i(s.x), s.i(s.y), s.i(s.u), s.i(s.v)
    hp = HPD(s.n, s.k)
    ref = np.sqrt(geo.dist2(s.x, s.y))
    close(sut(s.man.dist, x, y), ref, s.tol, "distance", floor=1e-3)
    close(sut(s.man.dist, y, x), ref, s.tol, "distance", floor=1e-3)
    lg = s.tangent(s.x, sut(s.man.log, x, y), "log")
    geo.close_at(s.x, lg, geo.log(s.x, s.y), s.tol, "log", floor=1e-2)
    geo.close_at(s.x, s.point(sut(s.man.exp, x, s.i(lg)), "exp"), s.y,
                 10*s.tol, "exp_x(log_x(y))")
    close(sut(s.man.norm, x, s.i(lg)), ref, s.tol*10, "norm of log",
          floor=1e-2)
    if c["size"] <= 2:
        e = sut(s.man.exp, x, u)
        geo.close_at(s.x, sut(s.man.log, x, e), s.u, 100*s.tol,
                     "log_x(exp_x(u))", floor=.1)
    nn = c["size"]**2*s.k
    g = arr(sut(s.man.inner, x, u, v), (), "inner product", cplx=False)
    need(abs(g - geo.inner(s.x, s.u, s.v)) <= s.tol*nn, "inner product")
    close(sut(s.man.norm, x, u), np.sqrt(geo.inner(s.x, s.u, s.u)), s.tol,
          "norm") if s.n > 1 else None
    close(sut(s.man.dist, x, y), sut(hp.dist, x, y), 1e-9, "ambient distance",
          floor=1e-3)
    zero = s.o(sut(s.man.zerovec, x), "zerovec")
    need(not np.any(zero), "zero vector is not zero")


@sub("C09", "transport", case(), quick=200, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    tol = s.tol*10**c["logc"]
    x, y, u, v = s.i(s.x), s.i(s.y), s.i(s.u), s.i(s.v)
    s.tol = tol
    tu = s.tangent(s.y, sut(s.man.transp, x, y, u), "transport")
    tv = s.tangent(s.y, sut(s.man.transp, x, y, v), "transport")
    geo.close_at(s.y, tu, geo.transp(s.x, s.y, s.u), 10*tol, "transport",
                 floor=c["size"])
    nn = c["size"]**2*s.k
    need(abs(geo.inner(s.y, tu, tv) - geo.inner(s.x, s.u, s.v)) <= tol*10*nn,
         "transport is not an isometry")
    geo.close_at(s.x, sut(s.man.transp, y, x, s.i(tu)), s.u, 10*tol,
                 "transport there and back", floor=c["size"])


@sub("C09", "gradient_conversion", case(), quick=200, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x = s.i(s.x)
    g = gen.normal(c["key"], "G", s.x.shape, True)
    rg = s.tangent(s.x, sut(s.man.egrad2rgrad, x, s.i(g)), "gradient")
    d = np.real(np.sum(np.conj(g)*s.v))
    nrm = np.linalg.norm(g)*np.linalg.norm(s.v)
    need(abs(geo.inner(s.x, rg, s.v) - d) <= 10*s.tol*max(nrm, 1e-9),
         "converted gradient does not represent the derivative along the "
         "surface")


@sub("C09", "random_tangent_vectors", case(2), quick=120, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    u = s.tangent(s.x, sut(s.man.randvec, s.i(s.x)), "random tangent vector")
    close(np.sqrt(geo.inner(s.x, u, u)), 1.0, 1e-7*10**c["logc"],
          "norm of a random tangent vector")
    v = s.o(sut(s.man.randvec, s.i(s.x)), "random tangent vector")
    need(not np.array_equal(u, v), "random tangent vectors repeat")
    geo.generic(u, "random tangent vector", traceless=True)


@sub("C09", "stack_is_slice_by_slice", case(), quick=200,
     rule="stacks of at least two, n > 1")
def _(c, rec):
    c = dict(c, k=max(2, c["k"]))
    s = Setup(c, rec)
    one = sut(SHPD, s.n)
    w = s.u*np.arange(1, s.k+1)[:, None, None]/s.k
    g = gen.normal(c["key"], "G", s.x.shape, True)
    for name, f in (("exp", lambda q, a, b, d, e: q.exp(a, d)),
                    ("log", lambda q, a, b, d, e: q.log(a, b)),
                    ("retr", lambda q, a, b, d, e: q.retr(a, d)),
                    ("transp", lambda q, a, b, d, e: q.transp(a, b, d)),
                    ("proj", lambda q, a, b, d, e: q.proj(a, e)),
                    ("egrad2rgrad", lambda q, a, b, d, e: q.egrad2rgrad(
                        a, e))):
        full = arr(sut(f, s.man, s.x, s.y, w, g), s.x.shape, name)
        part = np.array([sut(f, one, a, b, d, e)
                         for a, b, d, e in zip(s.x, s.y, w, g)])
        close(full, part, s.tol, name + " of a stack", floor=1e-2)
    close(sut(s.man.dist, s.x, s.y)**2, sum(
        sut(one.dist, a, b)**2 for a, b in zip(s.x, s.y)), s.tol,
        "squared distance of a stack", floor=1e-3)
    close(sut(s.man.inner, s.x, w, s.v), sum(
        sut(one.inner, a, b, d) for a, b, d in zip(s.x, w, s.v)), s.tol,
        "inner product of a stack", floor=c["size"]**2)


@sub("C09", "nearby_points_and_small_vectors", st.tuples(
    case(), st.sampled_from(geo.STEPS), st.sampled_from(geo.FACTORS)),
    quick=250, rule=RULE)
def _(c, rec):
    c, t, f = c
    c = dict(c, logc=c["logc"]/2, size=1)
    s = Setup(c, rec)
    rec.label("t=%g" % t, "f=%g" % f)
    x, y, v = s.i(s.x), s.i(s.y), s.i(s.v)
    # rounding errors, in coordinates whitened at x
    ab = 3e-14*s.n*10**(1.5*c["logc"])
    z = s.i(geo.near(s.x, t, s.u))
    ref = t*np.sqrt(s.k)
    d = float(sut(s.man.dist, x, z))
    need(abs(d-ref) <= ab*np.sqrt(s.k), lambda: "distance %.17g of points "
         "%.17g apart" % (d, ref)) if s.n > 1 else None
    d = float(sut(s.man.dist, z, x))
    need(abs(d-ref) <= ab*np.sqrt(s.k), lambda: "distance %.17g of points "
         "%.17g apart" % (d, ref)) if s.n > 1 else None
    geo.whitened(s.x, s.o(sut(s.man.log, x, z), "log"), t*s.u, ab,
                 "logarithm of a point at distance %g" % t)
    geo.whitened(s.x, s.o(sut(s.man.exp, x, s.i(t*s.u)), "exp"),
                 s.o(z, "z"), ab, "exponential of a vector of norm %g" % t)
    geo.whitened(s.x, s.o(sut(s.man.retr, x, s.i(t*s.u)), "retr"),
                 s.o(z, "z"), ab + t**3, "retraction of a vector of norm %g"
                 % t)
    # a short transport moves vectors a little, and exactly so
    geo.whitened(s.x, s.o(sut(s.man.transp, x, z, v), "transport"),
                 geo.transp(s.x, s.o(z, "z"), s.v), 10*ab,
                 "transport over a distance %g" % t)
    s_u = geo.squeeze(s.u, s.k)

    def lay(a):
        return gen.layout(a, s.layout)
    # linear operations, at any scale of the vector
    rel = 1e-12*10**(2*c["logc"])*s.n
    g = gen.normal(c["key"], "small", s.x.shape, True)
    g = geo.squeeze(g, s.k)
    geo.homogeneous(lambda w: sut(s.man.transp, x, y, lay(w)), s_u, f, rel,
                    "transport")
    a, b = [float(sut(s.man.inner, x, lay(w), v)) for w in (s_u, f*s_u)]
    need(abs(b-f*a) <= rel*f*s.k, lambda: "inner product with a vector of "
         "relative size %g: %.17g, expected %.17g" % (f, b, f*a))
    for name, op in (("projection", lambda w: sut(s.man.proj, x, lay(w))),
                     ("gradient", lambda w: sut(s.man.egrad2rgrad, x,
                                                lay(w)))):
        geo.homogeneous(op, g, f, rel, name) if s.n > 1 else None
    a, b = [float(sut(s.man.norm, x, lay(w)))
            for w in (s_u, f*s_u)]
    need(abs(b-f*a) <= 1e-12*f*a, lambda: "norm of a vector of relative size "
         "%g: %.17g, expected %.17g" % (f, b, f*a))
    # a small component out of the surface is removed as well
    w = geo.squeeze(s.u + t*s.x, s.k)
    geo.whitened(s.x, s.o(sut(s.man.proj, x, lay(w)),
                          "projection"), s.u, 10*ab, "projection of a vector "
                 "of trace %g" % (t*s.n))


@sub("C09", "far_points_and_long_vectors", case(), quick=200,
     rule="n > 1 and a base point other than the identity")
def _(c, rec):
    # a geodesic of length 8 per point: exp, log and distance along it
    c = dict(c, logc=c["logc"]/2, size=8 if c["key"] % 2 else 6)
    s = Setup(c, rec)
    x, u = s.i(s.x), s.i(s.u)
    e = s.o(sut(s.man.exp, x, u), "exp")
    geo.pd(e, "exp")
    z = geo.near(s.x, 1, s.u)
    geo.relative_at(s.x, e, z, 10*s.tol, "exponential of a long vector")
    d = c["size"]*np.sqrt(s.k)*(s.n > 1)
    close(sut(s.man.dist, x, s.i(z)), d, 1e3*s.tol, "distance of a far point",
          floor=.1)
    lg = s.o(sut(s.man.log, x, s.i(z)), "log")
    geo.relative_at(s.x, lg, s.u, 1e4*s.tol, "logarithm of a far point") \
        if s.n > 1 else None
    # vectors of unequal sizes in the slices
    w = s.u*(10.0**-np.arange(s.k))[:, None, None]
    e = s.o(sut(s.man.exp, x, s.i(w)), "exp")
    geo.relative_at(s.x, e, geo.near(s.x, 1, w), 10*s.tol, "exponential")


@st.composite
def large(draw):
    return {"n": draw(st.integers(40, 260)), "k": draw(st.integers(1, 2)),
            "key": draw(gen.KEY), "logc": draw(st.integers(0, 4))/4,
            "decade": draw(st.integers(0, 12))/2,
            "layout": draw(st.sampled_from(["C", "F", "readonly"]))}


@sub("C09", "large_dimension_and_steps", large(), quick=10, shards=2,
     rule="determinant before scaling out of the range of floats")
def _(c, rec):
    # the unit determinant is reached also when the determinant of the matrix
    # before scaling cannot be represented
    c = dict(c, size=np.sqrt(c["n"])*10.0**c["decade"])
    s = Setup(c, rec)
    x, u = s.i(s.x), s.i(s.u)
    r = s.o(sut(s.man.retr, x, u), "retraction")
    q = geo.sq(s.x)
    w, v = np.linalg.eigh(geo.scaled(s.x, s.u))
    w = np.log1p(w + w**2/2)
    lost = np.exp(np.max(w)-np.min(w))         # condition of the result
    far = np.abs(np.sum(w, axis=1)) > 700
    w = w - np.mean(w, axis=1, keepdims=True)
    z = q @ ((v*np.exp(w)[:, None, :]) @ geo.H(v)) @ q
    geo.relative_at(s.x, r, z, 1e-13*lost + 1e-9, "retraction of a long "
                    "vector")
    if lost < 1e8:
        need(np.all(np.abs(np.linalg.slogdet(r)[1]) <= 1e-12*lost*s.n + 1e-8),
             "retraction of a long vector: determinant is not one")
    np.random.seed(c["key"] % 2**32)
    p = s.point(sut(s.man.rand), "random point")
    need(np.all(np.linalg.cond(p) < 2.1), "random point is ill-conditioned")
    rec.nt(bool(np.any(far)))
