"""C08: affine-invariant geometry of Hermitian positive definite matrices."""
import numpy as np
from hypothesis import strategies as st

from robuststats.models.manifolds import HermitianPositiveDefinite as HPD

from .. import gen
from ..core import META, arr, close, herm, need, sub, sut
from . import geo

META["C08"] = {"assumptions": [
    "points of condition number up to 1e3 and scale 1e-3..1e3, tangent "
    "vectors of affine-invariant norm up to 4",
    "a stack carries the product metric (sums over the stack)"]}


@st.composite
def case(draw, kmax=4):
    return {"n": draw(gen.size(1, 5, 20)),
            "k": draw(st.one_of(*[st.sampled_from([1, 1, 2, 3, kmax])]*7 + [
                st.integers(5, 40)])),
            "key": draw(gen.KEY), "logc": draw(st.integers(0, 12))/4,
            "logs": draw(st.integers(-6, 6))/2,
            "size": draw(st.sampled_from([.01, .3, 1, 2, 4])),
            "layout": draw(st.sampled_from(["C", "F", "readonly"]))}


class Setup:
    def __init__(self, c, rec):
        n, k = self.n, self.k = c["n"], c["k"]
        s = 10.0**c["logs"]
        self.man = sut(HPD, n, k) if k > 1 or c["key"] % 2 else sut(HPD, n)
        self.x = geo.points(c["key"], "x", n, k, c["logc"], s)
        self.y = geo.points(c["key"], "y", n, k, c["logc"], s)
        self.z = geo.points(c["key"], "z", n, k, c["logc"], s)
        self.u = geo.tangents(c["key"], "u", self.x, c["size"])
        self.v = geo.tangents(c["key"], "v", self.x, c["size"])
        self.layout = c["layout"]
        rec.nt(n > 1 and c["logc"] > 0)
        rec.label("k=%d" % k, "n=%d" % n, "size=%g" % c["size"])

    def i(self, a):
        return gen.layout(geo.squeeze(a, self.k), self.layout)

    def o(self, a, what, **kw):
        return geo.stack(a, self.k, self.n, what, **kw)


RULE = "n > 1 and a non-scalar base point"


@sub("C08", "inner_product_and_norm", case(), quick=200, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, u, v = s.i(s.x), s.i(s.u), s.i(s.v)
    g = arr(sut(s.man.inner, x, u, v), (), "inner product", cplx=False)
    ref = geo.inner(s.x, s.u, s.v)
    nu, nv = np.sqrt(geo.inner(s.x, s.u, s.u)), np.sqrt(
        geo.inner(s.x, s.v, s.v))
    tol = 1e-10*10**c["logc"]
    need(abs(g-ref) <= tol*nu*nv, lambda: "inner product %.10g, expected "
         "%.10g" % (g, ref))
    close(sut(s.man.norm, x, u), nu, tol, "norm", cplx=False)
    close(sut(s.man.inner, x, u, u), nu**2, tol, "squared norm")
    need(abs(sut(s.man.inner, x, v, u) - ref) <= tol*nu*nv,
         "inner product is not symmetric")
    # invariance under congruence
    a = gen.mixing(c["key"], "a", s.n, True)
    g2 = sut(s.man.inner, s.i(a @ s.x @ geo.H(a)), s.i(a @ s.u @ geo.H(a)),
             s.i(a @ s.v @ geo.H(a)))
    need(abs(g2-ref) <= 1e3*tol*nu*nv, "inner product is not invariant under "
         "congruence")


@sub("C08", "distance", case(), quick=200, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, y, z = s.i(s.x), s.i(s.y), s.i(s.z)
    tol = 1e-9*10**(2*c["logc"])
    d = arr(sut(s.man.dist, x, y), (), "distance", cplx=False)
    ref = np.sqrt(geo.dist2(s.x, s.y))
    close(d, ref, tol, "distance", floor=1e-3)
    close(sut(s.man.dist, y, x), ref, tol, "distance is symmetric", floor=1e-3)
    need(abs(sut(s.man.dist, x, x)) <= 1e-6*10**c["logc"],
         "distance of a point to itself is not zero")
    dxz, dzy = sut(s.man.dist, x, z), sut(s.man.dist, z, y)
    need(d <= (dxz + dzy)*(1+1e-9) + 1e-9, "triangle inequality fails")
    a = gen.mixing(c["key"], "a", s.n, True)
    close(sut(s.man.dist, s.i(a @ s.x @ geo.H(a)), s.i(a @ s.y @ geo.H(a))),
          ref, 1e2*tol, "distance under congruence", floor=1e-3)
    close(sut(s.man.dist, s.i(np.linalg.inv(s.x)), s.i(np.linalg.inv(s.y))),
          ref, 1e2*tol, "distance under inversion", floor=1e-3)


@sub("C08", "exponential_and_logarithm", case(), quick=250, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, y, u = s.i(s.x), s.i(s.y), s.i(s.u)
    tol = 1e-9*10**(2*c["logc"])
    e = s.o(sut(s.man.exp, x, u), "exp")
    geo.pd(e, "exp")
    geo.close_at(s.x, e, geo.exp(s.x, s.u), tol, "exp")
    lg = s.o(sut(s.man.log, x, y), "log")
    herm(lg, 1e-9*10**c["logc"], "log") if np.linalg.norm(
        geo.scaled(s.x, lg)) > 1e-3 else None
    geo.close_at(s.x, lg, geo.log(s.x, s.y), tol, "log", floor=1e-2)
    geo.close_at(s.x, s.o(sut(s.man.exp, x, s.i(lg)), "exp(log)"), s.y,
                 tol*10, "exp_x(log_x(y))")
    if c["size"] <= 2:
        geo.close_at(s.x, s.o(sut(s.man.log, x, s.i(e)), "log(exp)"), s.u,
                     tol*1e2, "log_x(exp_x(u))", floor=.1)
        close(sut(s.man.dist, x, s.i(e)), c["size"]*np.sqrt(s.k) if s.n > 0
              else 0, tol*1e2, "distance to exp_x(u)", floor=.1)
    # zero vector
    zero = s.o(sut(s.man.zerovec, x), "zerovec")
    need(not np.any(zero), "zero vector is not zero")
    geo.close_at(s.x, s.o(sut(s.man.exp, x, s.i(zero)), "exp(0)"), s.x, tol,
                 "exp_x(0)")
    geo.close_at(s.x, s.o(sut(s.man.retr, x, s.i(zero)), "retr(0)"), s.x,
                 tol, "retr_x(0)")


@sub("C08", "retraction_is_second_order", case(), quick=200, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x = s.i(s.x)
    for t in (1e-2, .1):
        u = geo.tangents(c["key"], "r", s.x, t)
        r = s.o(sut(s.man.retr, x, s.i(u)), "retr")
        # exact remainder of the exponential series is below t^3/5
        d = np.max(np.linalg.norm(geo.scaled(s.x, r-geo.exp(s.x, u)),
                                  axis=(-2, -1)))
        need(d <= t**3/5 + 1e-11*10**(2*c["logc"]), lambda: "retraction "
             "departs from the exponential by %.3g at step %g" % (d, t))
    r = s.o(sut(s.man.retr, x, s.i(s.u)), "retr")
    geo.pd(r, "retraction of a long step")


@sub("C08", "transport", case(), quick=200, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, y, u, v = s.i(s.x), s.i(s.y), s.i(s.u), s.i(s.v)
    tol = 1e-9*10**(3*c["logc"])
    tu = s.o(sut(s.man.transp, x, y, u), "transport")
    tv = s.o(sut(s.man.transp, x, y, v), "transport")
    geo.close_at(s.y, tu, geo.transp(s.x, s.y, s.u), tol, "transport")
    nu = c["size"]**2*s.k
    need(abs(geo.inner(s.y, tu, tv) - geo.inner(s.x, s.u, s.v)) <= tol*10*nu,
         "transport is not an isometry")
    geo.close_at(s.x, s.o(sut(s.man.transp, y, x, s.i(tu)), "back"), s.u,
                 10*tol, "transport there and back")
    # the velocity of the geodesic is parallel
    lg = geo.log(s.x, s.y)
    geo.close_at(s.y, s.o(sut(s.man.transp, x, y, s.i(lg)), "transport"),
                 -geo.log(s.y, s.x), tol*10, "transported logarithm",
                 floor=.1)


@sub("C08", "gradient_and_hessian_conversion", case(), quick=250, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    x, u, v = s.i(s.x), s.i(s.u), s.i(s.v)
    sc = 10.0**c["logs"]
    tol = 1e-10*10**(2*c["logc"])
    # any euclidean gradient G: <rgrad, v>_x = Re tr(G^H v)
    g = gen.normal(c["key"], "G", s.x.shape, True)/sc
    rg = s.o(sut(s.man.egrad2rgrad, x, s.i(g)), "gradient")
    herm(rg, 1e-9, "gradient") if s.n > 1 else None
    d = np.real(np.sum(np.conj(g)*s.v))
    nrm = np.linalg.norm(g)*np.linalg.norm(s.v)
    need(abs(geo.inner(s.x, rg, s.v) - d) <= tol*nrm*10, "converted gradient "
         "does not represent the derivative")
    # f = Re tr(C x) + 1/2 Re tr(x D x): second derivative along the geodesic
    cc = gen.normal(c["key"], "C", s.x.shape, True)/sc
    if c["key"] % 2:              # otherwise an ambient gradient
        cc = cc + geo.H(cc)
    dd = gen.normal(c["key"], "D", s.x.shape, True)/sc**2
    dd = dd + geo.H(dd)
    eg = cc + .5*(dd @ s.x + s.x @ dd)

    def eh(w):
        return .5*(dd @ w + w @ dd)

    def second(a, b):
        acc = .5*(a @ np.linalg.solve(s.x, b) + b @ np.linalg.solve(s.x, a))
        return np.real(np.sum(np.conj(eg)*acc) + np.sum(np.conj(eh(a))*b))
    hu = s.o(sut(s.man.ehess2rhess, x, s.i(eg), s.i(eh(s.u)), u), "Hessian")
    hv = s.o(sut(s.man.ehess2rhess, x, s.i(eg), s.i(eh(s.v)), v), "Hessian")
    m = np.linalg.norm(eg)*sc*10**c["logc"]*c["size"]**2*10
    need(abs(geo.inner(s.x, hu, s.u) - second(s.u, s.u)) <= tol*m,
         lambda: "Hessian: %.10g along u, second derivative %.10g" % (
             geo.inner(s.x, hu, s.u), second(s.u, s.u)))
    need(abs(geo.inner(s.x, hu, s.v) - second(s.u, s.v)) <= tol*m,
         "Hessian is not the second covariant derivative")
    need(abs(geo.inner(s.x, hv, s.u) - second(s.u, s.v)) <= tol*m,
         "Hessian is not self-adjoint")


@sub("C08", "stack_is_slice_by_slice", case(), quick=200,
     rule="stacks of at least two, n > 1")
def _(c, rec):
    c = dict(c, k=max(2, c["k"]))
    s = Setup(c, rec)
    one = sut(HPD, s.n)
    m = s.man
    tol = 1e-9*10**(2*c["logc"])
    # tangent vectors of unequal sizes, so that slices cannot be swapped
    w = s.u*np.arange(1, s.k+1)[:, None, None]/s.k
    for name, f in (("exp", lambda q, a, b, d: q.exp(a, d)),
                    ("log", lambda q, a, b, d: q.log(a, b)),
                    ("retr", lambda q, a, b, d: q.retr(a, d)),
                    ("transp", lambda q, a, b, d: q.transp(a, b, d)),
                    ("proj", lambda q, a, b, d: q.proj(a, d)),
                    ("egrad2rgrad", lambda q, a, b, d: q.egrad2rgrad(a, d)),
                    ("ehess2rhess", lambda q, a, b, d: q.ehess2rhess(
                        a, b, d, d))):
        full = arr(sut(f, m, s.x, s.y, w), s.x.shape, name)
        part = np.array([sut(f, one, a, b, d)
                         for a, b, d in zip(s.x, s.y, w)])
        close(full, part, tol, name + " of a stack", floor=1e-2*10**c["logs"])
    close(sut(m.dist, s.x, s.y)**2, sum(sut(one.dist, a, b)**2 for a, b in
                                        zip(s.x, s.y)), tol,
          "squared distance of a stack", floor=1e-3)
    close(sut(m.norm, s.x, w)**2, sum(sut(one.norm, a, b)**2 for a, b in
                                      zip(s.x, w)), tol,
          "squared norm of a stack")
    close(sut(m.inner, s.x, w, s.v), sum(sut(one.inner, a, b, d) for a, b, d
                                         in zip(s.x, w, s.v)), tol,
          "inner product of a stack", floor=c["size"]**2)


@sub("C08", "random_points_and_vectors", case(), quick=150, rule=RULE)
def _(c, rec):
    s = Setup(c, rec)
    n, k = s.n, s.k
    need(s.man.dim == k*n*n, "dimension is %s, there are %d real degrees of "
         "freedom" % (s.man.dim, k*n*n))
    x = s.o(sut(s.man.rand), "random point", cplx=True)
    geo.pd(x, "random point")
    y = s.o(sut(s.man.rand), "random point")
    need(np.max(np.abs(x-y)) > 1e-12, "random points repeat")
    if n > 1:
        geo.generic(x, "random point")
    u = s.o(sut(s.man.randvec, s.i(s.x)), "random tangent vector")
    herm(u, 1e-12, "random tangent vector")
    close(np.sqrt(geo.inner(s.x, u, u)), 1.0, 1e-7*10**c["logc"],
          "norm of a random tangent vector")
    v = s.o(sut(s.man.randvec, s.i(s.x)), "random tangent vector")
    if n > 1:
        need(not np.array_equal(u, v), "random tangent vectors repeat")
        geo.generic(u, "random tangent vector")
    g = gen.normal(c["key"], "P", s.x.shape, True)
    pr = s.o(sut(s.man.proj, s.i(s.x), s.i(g)), "projection")
    close(pr, .5*(g+geo.H(g)), 1e-13, "projection", floor=1)
    need(np.isrealobj(np.asarray(sut(s.man.inner, s.i(s.x), s.i(s.u),
                                     s.i(s.v)))), "inner product not real")


@sub("C08", "nearby_points_and_small_vectors", st.tuples(
    case(), st.sampled_from(geo.STEPS), st.sampled_from(geo.FACTORS)),
    quick=250, rule=RULE)
def _(c, rec):
    c, t, f = c
    c = dict(c, logc=c["logc"]/2, size=1)
    s = Setup(c, rec)
    rec.label("t=%g" % t, "f=%g" % f)
    x, y, v = s.i(s.x), s.i(s.y), s.i(s.v)
    # rounding errors, in coordinates whitened at x
    ab = 3e-14*s.n*10**(1.5*c["logc"])
    z = s.i(geo.near(s.x, t, s.u))
    ref = t*np.sqrt(s.k)
    d = float(sut(s.man.dist, x, z))
    need(abs(d-ref) <= ab*np.sqrt(s.k), lambda: "distance %.17g of points "
         "%.17g apart" % (d, ref))
    d = float(sut(s.man.dist, z, x))
    need(abs(d-ref) <= ab*np.sqrt(s.k), lambda: "distance %.17g of points "
         "%.17g apart" % (d, ref))
    geo.whitened(s.x, s.o(sut(s.man.log, x, z), "log"), t*s.u, ab,
                 "logarithm of a point at distance %g" % t)
    geo.whitened(s.x, s.o(sut(s.man.exp, x, s.i(t*s.u)), "exp"),
                 s.o(z, "z"), ab, "exponential of a vector of norm %g" % t)
    geo.whitened(s.x, s.o(sut(s.man.retr, x, s.i(t*s.u)), "retr"),
                 s.o(z, "z"), ab + t**3, "retraction of a vector of norm %g"
                 % t)
    # a short transport moves vectors a little, and exactly so
    geo.whitened(s.x, s.o(sut(s.man.transp, x, z, v), "transport"),
                 geo.transp(s.x, s.o(z, "z"), s.v), 10*ab,
                 "transport over a distance %g" % t)
    s_u = geo.squeeze(s.u, s.k)

    def lay(a):
        return gen.layout(a, s.layout)
    # linear operations, at any scale of the vector
    rel = 1e-12*10**(2*c["logc"])*s.n
    g = gen.normal(c["key"], "small", s.x.shape, True)
    g = geo.squeeze(g, s.k)
    geo.homogeneous(lambda w: sut(s.man.transp, x, y, lay(w)), s_u, f, rel,
                    "transport")
    a, b = [float(sut(s.man.inner, x, lay(w), v)) for w in (s_u, f*s_u)]
    need(abs(b-f*a) <= rel*f*s.k, lambda: "inner product with a vector of "
         "relative size %g: %.17g, expected %.17g" % (f, b, f*a))
    for name, op in (("projection", lambda w: sut(s.man.proj, x, lay(w))),
                     ("gradient", lambda w: sut(s.man.egrad2rgrad, x,
                                                lay(w)))):
        geo.homogeneous(op, g, f, rel, name)
    a, b = [float(sut(s.man.norm, x, lay(w)))
            for w in (s_u, f*s_u)]
    need(abs(b-f*a) <= 1e-12*f*a, lambda: "norm of a vector of relative size "
         "%g: %.17g, expected %.17g" % (f, b, f*a))
    eg = gen.normal(c["key"], "eg", s.x.shape, True)
    eh = gen.normal(c["key"], "eh", s.x.shape, True)
    eg, eh = geo.squeeze(eg, s.k), geo.squeeze(eh, s.k)
    geo.homogeneous(lambda w: sut(s.man.ehess2rhess, x, lay(eg), lay(
        eh if w is s_u else f*eh), lay(w)), s_u, f, rel*1e2,
        "Hessian")


@sub("C08", "far_points_and_long_vectors", st.tuples(
    case(), st.sampled_from(geo.SHIFTS), st.sampled_from(geo.DECADES),
    st.sampled_from([1, 4, 8])), quick=250, rule="n > 1, non-scalar base "
    "point, a shift or a change of units")
def _(c, rec):
    c, sh, dec, size = c
    c = dict(c, logc=c["logc"]/2, size=size)
    s = Setup(c, rec)
    rec.nt(s.n > 1 and c["logc"] > 0 and (sh or dec))
    rec.label("shift=%g" % sh, "10^%g" % dec)
    x, v = s.i(s.x), s.i(s.v)
    tol = 1e-9*10**(2*c["logc"])
    # y in units 10^dec times those of x
    sy = s.y*10.0**dec
    y = s.i(sy)
    ref = geo.dist2(s.x, sy)
    close(sut(s.man.dist, x, y), np.sqrt(ref), tol, "distance", floor=1e-3)
    close(sut(s.man.dist, y, x), np.sqrt(ref), tol, "distance", floor=1e-3)
    lg = s.o(sut(s.man.log, x, y), "log")
    for a, b in zip(range(s.k), geo.log(s.x, sy)):
        geo.close_at(s.x[a:a+1], lg[a:a+1], b[None], tol, "log", floor=1e-2)
    geo.relative_at(s.x, s.o(sut(s.man.exp, x, s.i(lg)), "exp(log)"), sy,
                    tol*1e2, "exp_x(log_x(y))")
    w = s.o(sut(s.man.transp, x, y, v), "transport")
    geo.relative_at(sy, w, geo.transp(s.x, sy, s.v), tol*10**c["logc"],
                    "transport")
    # exp_x(shift x + u) = e^shift exp_x(u)
    e = s.o(sut(s.man.exp, x, s.i(sh*s.x + s.u)), "exp")
    geo.pd(e, "exp")
    z = np.exp(sh)*geo.near(s.x, 1, s.u)
    for k in range(s.k):
        geo.relative_at(s.x[k:k+1], e[k:k+1], z[k:k+1], tol*10,
                        "exponential of a long vector")
        # eigenvalues too, down to the smallest the rounding leaves
        wa, wb = [np.linalg.eigvalsh(geo.scaled(s.x[k], q[k]))
                  for q in (e, z)]
        need(np.all(np.abs(wa-wb) <= tol*wb[-1]), "eigenvalues of the "
             "exponential of a long vector")
    if size < 8 or s.n == 1:
        lg = s.o(sut(s.man.log, x, s.i(z)), "log")
        for k in range(s.k):
            geo.close_at(s.x[k:k+1], lg[k:k+1], (sh*s.x + s.u)[k:k+1],
                         tol*1e2, "logarithm of a far point", floor=.1)
    d = np.sqrt(geo.inner(s.x, sh*s.x + s.u, sh*s.x + s.u))
    close(sut(s.man.dist, x, s.i(z)), d, 1e3*tol, "distance of a far point",
          floor=.1)
    # a step against the vector that outweighs the point still gives a point
    r = s.o(sut(s.man.retr, x, s.i(-abs(sh)*s.x + s.u)), "retr")
    geo.pd(r, "retraction of a long step")
