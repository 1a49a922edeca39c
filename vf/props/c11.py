"""C11: weighted products and the Kronecker elliptical manifold."""
import numpy as np
from hypothesis import strategies as st

from robuststats.models import manifolds as M

from .. import gen
from ..core import META, arr, close, need, sub, sut
from . import geo

META["C11"] = {"assumptions": [
    "elliptical coefficients for which the metric is positive definite",
    "factors: Hermitian positive definite, unit determinant (size >= 2), "
    "positive vectors (one column)"]}


# ------------------------------------------------------------ products
@st.composite
def prod_case(draw):
    m = draw(st.integers(1, 4))
    return {"key": draw(gen.KEY), "size": draw(st.sampled_from([.1, 1, 2])),
            "logc": draw(st.integers(0, 8))/4,
            "f": [[draw(st.sampled_from(["HPD", "SHPD", "SPV"])),
                   draw(st.integers(2, 4))] for _ in range(m)],
            "w": draw(st.one_of(st.none(), st.lists(st.sampled_from(
                [1e-4, .01, .25, .5, 1, 3, 50, 1e4]), min_size=m, max_size=m)))}


class Prod:
    def __init__(self, c, rec):
        self.c = c
        self.mans, self.X, self.Y, self.U, self.V = [], [], [], [], []
        for i, (t, n) in enumerate(c["f"]):
            tag = "f%d" % i
            if t == "SPV":
                self.mans.append(M.StrictlyPositiveVectors(n))

                def pt(a):
                    return np.exp(gen.normal(c["key"], tag+a, (n, 1)))
                x, y = pt("x"), pt("y")
                u, v = [x*c["size"]*gen.normal(c["key"], tag+a, (n, 1))
                        for a in "uv"]
            else:
                sp = t == "SHPD"
                self.mans.append((
                    M.SpecialHermitianPositiveDefinite if sp
                    else M.HermitianPositiveDefinite)(n))
                x, y = [geo.points(c["key"], tag+a, n, 1, c["logc"], 2, sp)[0]
                        for a in "xy"]
                u, v = [geo.tangents(c["key"], tag+a, x[None], c["size"],
                                     sp)[0] for a in "uv"]
            self.X.append(x)
            self.Y.append(y)
            self.U.append(u)
            self.V.append(v)
        self.w = c["w"] or [1]*len(self.mans)
        self.man = sut(M.WeightedProduct, self.mans, c["w"]) \
            if c["w"] else sut(M.WeightedProduct, self.mans)
        rec.nt(len(self.mans) > 1 and len(set(self.w)) > 1)
        rec.label("+".join(sorted({t for t, _ in c["f"]})),
                  "factors=%d" % len(self.mans),
                  "weights" if c["w"] else "default weights")

    def inner(self, U, V):
        tot = 0
        for (t, n), w, x, u, v in zip(self.c["f"], self.w, self.X, U, V):
            tot += w*(np.sum(u*v/x**2) if t == "SPV" else geo.inner(x, u, v))
        return tot

    def dist2(self):
        tot = 0
        for (t, n), w, x, y in zip(self.c["f"], self.w, self.X, self.Y):
            tot += w*(np.sum(np.log(x/y)**2) if t == "SPV"
                      else geo.dist2(x[None], y[None]))
        return tot


RULE = "at least two factors with different weights"


@sub("C11", "weighted_metric", prod_case(), quick=250, rule=RULE)
def _(c, rec):
    s = Prod(c, rec)
    tol = 1e-9*10**(2*c["logc"])
    nn = np.sqrt(s.inner(s.U, s.U)*s.inner(s.V, s.V))
    g = arr(sut(s.man.inner, s.X, s.U, s.V), (), "inner product", cplx=False)
    need(abs(g - s.inner(s.U, s.V)) <= tol*nn, lambda: "inner product %.10g, "
         "weighted sum %.10g" % (g, s.inner(s.U, s.V)))
    nrm = np.squeeze(sut(s.man.norm, s.X, s.U))
    close(nrm, np.sqrt(s.inner(s.U, s.U)), tol, "norm", cplx=False)
    d = np.squeeze(sut(s.man.dist, s.X, s.Y))
    close(d, np.sqrt(s.dist2()), tol, "distance", floor=1e-3, cplx=False)
    lg = sut(s.man.log, s.X, s.Y)
    close(np.sqrt(s.inner(lg, lg)), np.sqrt(s.dist2()), tol*10,
          "norm of the logarithm", floor=1e-3)
    e = sut(s.man.exp, s.X, lg)
    for a, b in zip(e, s.Y):
        close(a, b, tol*10, "exp(log)")


@sub("C11", "weighted_gradient_hessian_vectors", prod_case(), quick=250,
     rule=RULE)
def _(c, rec):
    s = Prod(c, rec)
    tol = 1e-9*10**(2*c["logc"])
    G = [gen.normal(c["key"], "G%d" % i, x.shape, np.iscomplexobj(x))
         for i, x in enumerate(s.X)]
    rg = sut(s.man.egrad2rgrad, s.X, G)
    need(len(rg) == len(s.X), "gradient has %d components" % len(rg))
    d = sum(np.real(np.sum(np.conj(a)*b)) for a, b in zip(G, s.V))
    n = sum(np.linalg.norm(a)*np.linalg.norm(b) for a, b in zip(G, s.V))
    need(abs(s.inner(rg, s.V) - d) <= tol*n*max(s.w)/min(s.w)*1e-1 + tol*n,
         "converted gradient does not represent the derivative")
    if all(t != "SHPD" for t, _ in c["f"]):
        E = [gen.normal(c["key"], "E%d" % i, x.shape, np.iscomplexobj(x))
             for i, x in enumerate(s.X)]
        E = [e + geo.H(e) if np.iscomplexobj(e) else e for e in E]
        h = sut(s.man.ehess2rhess, s.X, G, E, s.U)
        # component by component: the factor Hessian divided by the weight
        for w, m, x, g, e, u, got in zip(s.w, s.mans, s.X, G, E, s.U, h):
            close(got, np.asarray(m.ehess2rhess(x, g, e, u))/w, 1e-10,
                  "converted Hessian")
    r = sut(s.man.randvec, s.X)
    close(np.sqrt(s.inner(r, r)), 1.0, 1e-7*10**c["logc"],
          "norm of a random tangent vector")
    r2 = sut(s.man.randvec, s.X)
    need(not all(np.array_equal(a, b) for a, b in zip(r, r2)),
         "random tangent vectors repeat")


@sub("C11", "products_act_factor_by_factor", prod_case(), quick=150,
     rule=RULE)
def _(c, rec):
    s = Prod(c, rec)
    for name, f in (("exp", lambda m, a, b, u, v: m.exp(a, u)),
                    ("log", lambda m, a, b, u, v: m.log(a, b)),
                    ("retr", lambda m, a, b, u, v: m.retr(a, u)),
                    ("transp", lambda m, a, b, u, v: m.transp(a, b, v)),
                    ("proj", lambda m, a, b, u, v: m.proj(a, v)),
                    ("zerovec", lambda m, a, b, u, v: m.zerovec(a))):
        got = sut(f, s.man, s.X, s.Y, s.U, s.V)
        need(len(got) == len(s.X), "%s has %d components" % (name, len(got)))
        for m, x, y, u, v, g in zip(s.mans, s.X, s.Y, s.U, s.V, got):
            close(g, np.asarray(f(m, x, y, u, v)), 1e-10, name, floor=1e-3)
    p = sut(s.man.rand)
    need(len(p) == len(s.X) and all(np.shape(a) == np.shape(b)
                                    for a, b in zip(p, s.X)), "random point")
    need(s.man.dim == sum(m.dim for m in s.mans), "dimension")


# ------------------------------------------------------------ Kronecker
@st.composite
def kron_case(draw, kmax=3, amin=1):
    return {"a": draw(st.integers(amin, 4)), "b": draw(st.integers(1, 4)),
            "k": draw(st.sampled_from([1, 1, 2, kmax])),
            "key": draw(gen.KEY), "logc": draw(st.integers(0, 8))/4,
            "size": draw(st.sampled_from([.1, 1, 2])),
            "units": draw(st.sampled_from([[0, 0], [0, 0], [6, 6], [-6, -6],
                                           [12, 12], [-12, -12], [4, -4]])),
            "df": draw(st.sampled_from([.5, 1, 3, 10, 200, "gauss"]))}


class Kron:
    def __init__(self, c, rec):
        a, b, k = self.a, self.b, self.k = c["a"], c["b"], c["k"]
        n = a*b
        self.alpha = 1. if c["df"] == "gauss" else (c["df"]+n)/(c["df"]+n+1)
        cl = M.KroneckerHermitianPositiveElliptical
        self.man = sut(cl, a, b, self.alpha, k) if k > 1 or c["key"] % 2 \
            else sut(cl, a, b, self.alpha)
        key = c["key"]
        self.A = geo.points(key, "A", a, k, c["logc"], 1, True)
        lb, lb2 = c.get("units", [0, 0])
        self.unit = 10.0**lb
        self.B = geo.points(key, "B", b, k, c["logc"], 3*10.0**lb)
        self.A2 = geo.points(key, "A2", a, k, c["logc"], 1, True)
        self.B2 = geo.points(key, "B2", b, k, c["logc"], 10.0**lb2)
        self.xi = (geo.tangents(key, "xA", self.A, c["size"], True),
                   geo.tangents(key, "xB", self.B, c["size"]))
        self.eta = (geo.tangents(key, "eA", self.A, c["size"], True),
                    geo.tangents(key, "eB", self.B, c["size"]))
        self.tol = 1e-9*10**(2*c["logc"])
        rec.nt(a > 1 and b > 1 and self.alpha < 1)
        rec.label("a=%d,b=%d" % (a, b), "k=%d" % k, "df=%s" % c["df"])

    def p(self, t):
        return tuple(geo.squeeze(x, self.k) for x in t)

    def st(self, t, what):
        need(len(t) == 2, what + " does not have two components")
        return (geo.stack(t[0], self.k, self.a, what),
                geo.stack(t[1], self.k, self.b, what))

    def inner(self, xi, eta, A=None, B=None):
        """Fisher metric of the elliptical model on the big matrix."""
        A = self.A if A is None else A
        B = self.B if B is None else B
        tot = 0
        for x, y, xa, xb, ya, yb in zip(A, B, *xi, *eta):
            s = np.kron(x, y)
            u = np.linalg.solve(s, np.kron(xa, y) + np.kron(x, xb))
            v = np.linalg.solve(s, np.kron(ya, y) + np.kron(x, yb))
            tot += self.alpha*np.real(np.trace(u @ v)) + (
                self.alpha-1)*np.real(np.trace(u)*np.trace(v))
        return tot

    def dist2(self):
        tot = 0
        for a, b, c, d in zip(self.A, self.B, self.A2, self.B2):
            s, t = np.kron(a, b), np.kron(c, d)
            ld = np.linalg.slogdet(t)[1] - np.linalg.slogdet(s)[1]
            tot += self.alpha*geo.dist2(s[None], t[None]) + (
                self.alpha-1)*ld**2
        return tot


KR = "both factors of size > 1, coefficient below one"


@sub("C11", "kronecker_fisher_metric", kron_case(), quick=250, rule=KR)
def _(c, rec):
    s = Kron(c, rec)
    th = s.p((s.A, s.B))
    n1, n2 = s.inner(s.xi, s.xi), s.inner(s.eta, s.eta)
    g = arr(sut(s.man.inner, th, s.p(s.xi), s.p(s.eta)), (), "inner product",
            cplx=False)
    ref = s.inner(s.xi, s.eta)
    need(abs(g-ref) <= s.tol*np.sqrt(n1*n2), lambda: "inner product %.10g, "
         "Fisher metric %.10g" % (g, ref))
    close(np.squeeze(sut(s.man.norm, th, s.p(s.xi))), np.sqrt(n1), s.tol*10,
          "norm")
    d = np.squeeze(sut(s.man.dist, th, s.p((s.A2, s.B2))))
    close(d, np.sqrt(s.dist2()), s.tol*10, "distance", floor=1e-3)
    lg = s.st(sut(s.man.log, th, s.p((s.A2, s.B2))), "log")
    close(np.sqrt(s.inner(lg, lg)), np.sqrt(s.dist2()), 10*s.tol,
          "norm of the logarithm", floor=1e-3)


@sub("C11", "kronecker_gradient", kron_case(), quick=250, rule=KR)
def _(c, rec):
    s = Kron(c, rec)
    th = s.p((s.A, s.B))
    G = (gen.normal(c["key"], "GA", s.A.shape, True),
         gen.normal(c["key"], "GB", s.B.shape, True)/s.unit)
    rg = s.st(sut(s.man.egrad2rgrad, th, s.p(G)), "gradient")
    d = sum(np.real(np.sum(np.conj(g)*v)) for g, v in zip(G, s.eta))
    n = sum(np.linalg.norm(g)*np.linalg.norm(v) for g, v in zip(G, s.eta))
    k = 1/min(1, s.alpha + (s.alpha-1)*s.a*s.b)
    need(abs(s.inner(rg, s.eta) - d) <= s.tol*n*10*k, lambda: "converted "
         "gradient: <grad, v> = %.10g, derivative %.10g" % (
             s.inner(rg, s.eta), d))
    # it is tangent
    t = np.trace(np.linalg.solve(s.A, rg[0]), axis1=-2, axis2=-1)
    need(np.all(np.abs(t) <= s.tol*10*max(1, np.linalg.norm(
        geo.scaled(s.A, rg[0])))), "left gradient leaves the unit-determinant "
        "tangent space")


@sub("C11", "kronecker_points_stay_valid", kron_case(), quick=150, rule=KR)
def _(c, rec):
    s = Kron(c, rec)
    th = s.p((s.A, s.B))
    for name, f in (("exp", s.man.exp), ("retr", s.man.retr)):
        a, b = s.st(sut(f, th, s.p(s.xi)), name)
        geo.pd(a, name + " (left)")
        geo.pd(b, name + " (right)")
        ld = np.linalg.slogdet(a)[1]
        need(np.all(np.abs(ld) < 10*s.tol), name + ": left factor has "
             "determinant %s" % np.exp(ld))
    a, b = s.st(sut(s.man.exp, th, s.p(s.xi)), "exp")
    geo.close_at(s.A, a, geo.exp(s.A, s.xi[0]), s.tol*10, "exp (left)")
    geo.close_at(s.B, b, geo.exp(s.B, s.xi[1]), s.tol*10, "exp (right)")
    a, b = s.st(sut(s.man.rand), "random point")
    geo.pd(a, "random left factor")
    geo.pd(b, "random right factor")
    need(np.all(np.abs(np.linalg.slogdet(a)[1]) < 1e-9), "random left factor "
         "determinant")
    tr = s.st(sut(s.man.transp, th, s.p((s.A2, s.B2)), s.p(s.xi)),
              "transport")
    close(s.inner(tr, tr, s.A2, s.B2), s.inner(s.xi, s.xi), s.tol*100,
          "transport is an isometry")
    need(s.man.dim == s.k*(s.a**2-1+s.b**2), "dimension is %s" % s.man.dim)


@sub("C11", "kronecker_random_vectors", kron_case(amin=2), quick=100,
     rule=KR)
def _(c, rec):
    s = Kron(c, rec)
    th = s.p((s.A, s.B))
    r = s.st(sut(s.man.randvec, th), "random tangent vector")
    close(np.sqrt(s.inner(r, r)), 1.0, 1e-7*10**c["logc"],
          "norm of a random tangent vector")
    t = np.trace(np.linalg.solve(s.A, r[0]), axis1=-2, axis2=-1)
    need(np.all(np.abs(t) < s.tol*10), "random vector is not tangent")


@sub("C11", "nearby_points_and_small_vectors", st.tuples(
    kron_case(), st.sampled_from(geo.STEPS), st.sampled_from(geo.FACTORS)),
    quick=200, rule=KR)
def _(c, rec):
    c, t, f = c
    c = dict(c, logc=c["logc"]/2, size=1)
    s = Kron(c, rec)
    rec.label("t=%g" % t, "f=%g" % f)
    th = s.p((s.A, s.B))
    ab = 3e-14*s.a*s.b*10**(1.5*c["logc"])
    A2, B2 = geo.near(s.A, t, s.xi[0]), geo.near(s.B, t, s.xi[1])
    z = s.p((A2, B2))
    ref = t*np.sqrt(s.inner(s.xi, s.xi))
    # the determinant term is a difference of terms of the squared size of
    # the distance: what is left keeps the relative accuracy of its parts
    q = s.alpha + (s.alpha-1)*s.a*s.b
    tol = ab*10*np.sqrt(s.k*s.a*s.b)/min(1, q)
    for p1, p2 in ((th, z), (z, th)):
        d = float(np.squeeze(sut(s.man.dist, p1, p2)))
        need(abs(d-ref) <= tol + 1e-3*ref*(t < 1e-6), lambda: "distance %.17g "
             "of points %.17g apart" % (d, ref))
    lg = s.st(sut(s.man.log, th, z), "log")
    ex = s.st(sut(s.man.exp, th, s.p((t*s.xi[0], t*s.xi[1]))), "exp")
    re = s.st(sut(s.man.retr, th, s.p((t*s.xi[0], t*s.xi[1]))), "retr")
    tr = s.st(sut(s.man.transp, th, z, s.p(s.eta)), "transport")
    for x, g, e, r, w, u, y, v in zip((s.A, s.B), lg, ex, re, tr, s.xi,
                                      (A2, B2), s.eta):
        geo.whitened(x, g, t*u, ab, "logarithm at distance %g" % t)
        geo.whitened(x, e, y, ab, "exponential of a vector of norm %g" % t)
        geo.whitened(x, r, y, ab + t**3, "retraction of a vector of norm %g"
                     % t)
        geo.whitened(x, w, geo.transp(x, y, v), 10*ab,
                     "transport over a distance %g" % t)
    rel = 1e-12*10**(2*c["logc"])*s.a*s.b/min(1, q)
    G = (gen.normal(c["key"], "GA", s.A.shape, True),
         gen.normal(c["key"], "GB", s.B.shape, True)/s.unit)
    one = s.st(sut(s.man.egrad2rgrad, th, s.p(G)), "gradient")
    many = s.st(sut(s.man.egrad2rgrad, th, s.p((f*G[0], f*G[1]))), "gradient")
    pr = s.st(sut(s.man.proj, th, s.p(G)), "projection")
    pf = s.st(sut(s.man.proj, th, s.p((f*G[0], f*G[1]))), "projection")
    for a, b, x, name in ((one[0], many[0], s.a, "gradient"), (
            one[1], many[1], 2, "gradient"), (pr[0], pf[0], s.a, "projection"),
            (pr[1], pf[1], 2, "projection")):
        if x > 1:
            close(b/f, a, rel, name + " at scale %g" % f)
    n1 = float(np.squeeze(sut(s.man.norm, th, s.p(s.xi))))
    n2 = float(np.squeeze(sut(s.man.norm, th, s.p((f*s.xi[0], f*s.xi[1])))))
    close(n2/f, n1, 1e-11/min(1, q), "norm at scale %g" % f)
    i2 = float(sut(s.man.inner, th, s.p((f*s.xi[0], f*s.xi[1])), s.p(s.eta)))
    need(abs(i2/f - s.inner(s.xi, s.eta)) <= rel*10*np.sqrt(s.inner(
        s.xi, s.xi)*s.inner(s.eta, s.eta)), "inner product at scale %g" % f)
