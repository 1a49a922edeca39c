"""C29: optimisers working on the manifolds reach the minimiser."""
import numpy as np
from hypothesis import strategies as st
from pymanopt import Problem
from pymanopt.function import Callable
from pymanopt.solvers import (ConjugateGradient, SteepestDescent,
                              TrustRegions)

from robuststats.models import manifolds as M

from .. import gen
from ..core import META, need, sub, sut
from . import geo
from .geo import H

META["C29"] = {"assumptions": [
    "pymanopt 0.2 solvers (steepest descent, conjugate gradient, trust "
    "regions) with exact Euclidean derivatives",
    "data points of condition number up to 100; the minimisers used as "
    "oracle are computed without the manifolds"]}

SOLVERS = {"descent": SteepestDescent, "conjugate": ConjugateGradient,
           "trust": TrustRegions}


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["HPD", "SHPD", "SPV", "product", "kron"]))
    return {"kind": kind, "n": draw(st.integers(2, 4)),
            "b": draw(st.integers(1, 3)),
            "k": draw(st.sampled_from([1, 1, 2, 3])),
            "m": draw(st.integers(1, 4)), "key": draw(gen.KEY),
            "logc": draw(st.integers(0, 6))/4,
            "logs": draw(st.integers(-4, 4)),
            "solver": draw(st.sampled_from(sorted(SOLVERS))),
            "start": draw(st.sampled_from(["given", "random"])),
            "w": draw(st.lists(st.sampled_from([.25, 1, 3]), min_size=2,
                               max_size=2)),
            "df": draw(st.sampled_from([3, 30, "gauss"]))}


# costs: sums over data matrices C_i of  tr(C_i x^-1) + log det x  (one
# minimiser: the mean of the C_i; on the unit-determinant surface: the mean
# scaled to determinant one) and, on positive vectors, of c/x + log x
class Matrix:
    def __init__(self, key, tag, n, m, k, logc, scale, special):
        self.c = np.array([geo.points(key, "%s%d" % (tag, i), n, k, logc,
                                      scale, False) for i in range(m)])
        self.s, self.special = self.c.mean(0), special
        self.n, self.k = n, k

    def cost(self, x):
        x = np.reshape(x, (self.k, self.n, self.n))
        return float(np.real(np.trace(np.linalg.solve(x, self.s), axis1=-2,
                                      axis2=-1)).sum()
                     + np.linalg.slogdet(x)[1].sum())

    def grad(self, x):
        sh = np.shape(x)
        x = np.reshape(x, (self.k, self.n, self.n))
        i = np.linalg.inv(x)
        return np.reshape(i - i @ self.s @ i, sh)

    def hess(self, x, u):
        sh = np.shape(x)
        x, u = [np.reshape(a, (self.k, self.n, self.n)) for a in (x, u)]
        i = np.linalg.inv(x)
        d = i @ u @ i
        h = -d + d @ self.s @ i + i @ self.s @ d
        return np.reshape((h + H(h))/2, sh)

    def best(self):
        b = self.s
        if self.special:
            b = b/np.exp(np.linalg.slogdet(b)[1]/self.n)[:, None, None]
        return b[0] if self.k == 1 else b

    def start(self, key, tag, logc, scale):
        b = geo.points(key, tag, self.n, self.k, logc, scale, self.special)
        return b[0] if self.k == 1 else b

    def off(self, x):
        """relative distance to the minimiser"""
        x = np.reshape(x, (self.k, self.n, self.n))
        b = np.reshape(self.best(), x.shape)
        return max(np.linalg.norm(geo.scaled(b[j], x[j]-b[j]))
                   for j in range(self.k))


class Vector:
    def __init__(self, key, tag, n, m, k, logc, scale, _):
        self.c = scale*10.0**(logc*(gen.rng(key, tag).random((m, n, k))-.5))
        self.s = self.c.mean(0)

    def cost(self, x):
        return float(np.sum(self.s/x + np.log(x)))

    def grad(self, x):
        return 1/x - self.s/x**2

    def hess(self, x, u):
        return u*(2*self.s/x**3 - 1/x**2)

    def start(self, key, tag, logc, scale):
        return scale*10.0**(logc*(gen.rng(key, tag).random(
            self.s.shape)-.5))

    def off(self, x):
        return np.max(np.abs(x/self.s - 1))


def build(c):
    """manifold, costs of the components, whether a point is a sequence"""
    n, k, key, s = c["n"], c["k"], c["key"], 10.0**c["logs"]

    def part(i, kind, n, k):
        cl = Vector if kind == "SPV" else Matrix
        return cl(key, "c%d" % i, n, c["m"], k, c["logc"],
                  1 if kind == "SHPD" else s, kind == "SHPD")

    def single(kind, n, k):
        return {"HPD": M.HermitianPositiveDefinite,
                "SHPD": M.SpecialHermitianPositiveDefinite,
                "SPV": M.StrictlyPositiveVectors}[kind](n, k)
    if c["kind"] in ("HPD", "SHPD", "SPV"):
        return sut(single, c["kind"], n, k), [part(0, c["kind"], n, k)], False
    if c["kind"] == "product":
        kinds = [["HPD", "SPV"], ["HPD", "SHPD"], ["SPV", "HPD"],
                 ["SHPD", "SPV"]][key % 4]
        sizes = [n, max(2, c["b"])]
        mans = [single(t, q, 1) for t, q in zip(kinds, sizes)]
        return sut(M.WeightedProduct, mans, c["w"]), [
            part(i, t, q, 1) for i, (t, q) in enumerate(zip(kinds, sizes))], \
            True
    d = n*c["b"]
    al = 1. if c["df"] == "gauss" else (c["df"]+d)/(c["df"]+d+1)
    return sut(M.KroneckerHermitianPositiveElliptical, n, c["b"], al, k), [
        part(0, "SHPD", n, k), part(1, "HPD", c["b"], k)], True


@sub("C29", "minimiser_is_reached", case(), quick=120, shards=4,
     rule="started away from the minimiser, matrices or several components")
def _(c, rec):
    man, parts, seq = build(c)
    s = 10.0**c["logs"]
    if c["start"] == "random":
        state = np.random.get_state()
        np.random.seed(c["key"] % 2**32)
        x0 = sut(man.rand)
        np.random.set_state(state)
    else:
        x0 = [q.start(c["key"], "s%d" % i, c["logc"], 1 if getattr(
            q, "special", False) else s) for i, q in enumerate(parts)]
        x0 = (tuple(x0) if c["key"] % 2 else x0) if seq else x0[0]

    def split(x):
        return list(x) if seq else [x]

    def cost(x):
        return sum(q.cost(a) for q, a in zip(parts, split(x)))

    p = parts
    fs = [lambda x: p[0].cost(x), lambda x: p[0].grad(x),
          lambda x, u: p[0].hess(x, u)]
    if seq:
        fs = [lambda x, y: p[0].cost(x) + p[1].cost(y),
              lambda x, y: [p[0].grad(x), p[1].grad(y)],
              lambda x, y, u, v: [p[0].hess(x, u), p[1].hess(y, v)]]
    value, egrad, ehess = map(Callable, fs)
    k = {}
    solver = c["solver"]
    if c["kind"] in ("HPD", "SPV") or c["kind"] == "product" and all(
            not getattr(q, "special", False) for q in parts):
        k["ehess"] = ehess
    elif solver == "trust":
        solver = "conjugate"
    # several columns of positive vectors are separate points, with one norm
    # each: the solvers want one number
    if c["kind"] == "SPV" and c["k"] > 1:
        rec.label("separate columns, skipped")
        return
    prob = Problem(manifold=man, cost=value, egrad=egrad, verbosity=0, **k)
    first = cost(x0)
    if float(np.squeeze(man.norm(x0, prob.grad(x0)))) < 1e-7:
        # solvers divide by the norm of the first gradient
        rec.label("started at the minimiser, skipped")
        return
    o = {"mingradnorm": 1e-7}
    if solver != "trust":
        o.update(maxiter=3000, minstepsize=1e-13)
    state = np.random.get_state()
    np.random.seed(c["key"] % 2**32)
    x = x0
    try:
        for _ in range(6):
            x = sut(SOLVERS[solver](**o).solve, prob, x=x)
            g = float(np.squeeze(man.norm(x, prob.grad(x))))
            if g < 1e-5:
                break
    finally:
        np.random.set_state(state)
    need(cost(x) <= first + 1e-12*abs(first), lambda: "the cost has increased from %.17g to %.17g" % (first, cost(x)))
    for i, (q, a) in enumerate(zip(parts, split(x))):
        off = q.off(np.asarray(a))
        a = np.asarray(a)
        if isinstance(q, Vector):
            need(np.all(a > 0), "a component is not positive")
        else:
            need(np.max(np.abs(a - H(a))) <= 1e-12*np.max(np.abs(a)),
                 "a component is not Hermitian")
            if q.special:
                ld = np.max(np.abs(np.linalg.slogdet(a)[1]))
                need(ld <= 1e-9, lambda: "the determinant has left one: its "
                     "logarithm is %.3g" % ld)
        need(off <= 1e-4, lambda: "component %d stops at relative distance "
             "%.3g from the minimiser (gradient norm %.3g)" % (i, off, g))
    rec.nt(max(q.off(np.asarray(a)) for q, a in zip(parts, split(x0))) > 1e-2
           and c["kind"] != "SPV")
    rec.label(c["kind"], solver, "k=%d" % c["k"], c["start"])
