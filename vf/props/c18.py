"""C18: iteration reports and controls."""
import numpy as np
from hypothesis import strategies as st

from robuststats.estimation.structured import estimation_cov_kronecker_MM

from .. import gen
from ..core import META, close, need, sub, sut
from . import kron, mest

META["C18"] = {"assumptions": [
    "fixed-point Tyler, Student-t, Huber (real and complex) and the "
    "Kronecker MM iteration; the natural gradient methods have no such "
    "controls",
    "normalisation 'None' where iterates are compared (other normalisations "
    "are applied after the last iteration, C14)"]}


@st.composite
def case(draw):
    if draw(st.integers(0, 4)) == 0:
        c = draw(kron.case(nmin=1, amax=3, units=(-10, -6, 6, 10)))
        c["est"], c["par"], c["start"] = "kron", None, "none"
    else:
        c = draw(mest.case(big=False, pmax=6))
        c["start"] = draw(mest.START)
    c["tol"] = draw(st.sampled_from([.5, .1, 1e-2, 1e-3, 1e-4, 1e-6]))
    c["lim"] = draw(st.sampled_from([1, 2, 3, 5, 8, 30, 60]))
    return c


def load(c):
    if c["est"] == "kron":
        return kron.data(c), None
    return mest.setup(c), mest.start(c, c["start"])


def run(c, x, s0, tol, lim):
    """-> list of matrices, delta, iterations"""
    if c["est"] == "kron":
        r = sut(estimation_cov_kronecker_MM, x, c["a"], c["b"], tol=tol,
                iter_max=lim)
        return list(r[:2]), r[2], r[3]
    r = sut(mest.call, c["est"], c["par"], x, init=s0, tol=tol, iter_max=lim)
    return [r[0]], r[1], r[2]


def first(c, x, s0):
    if c["est"] == "kron":
        t = complex if c["cplx"] else float
        return [np.eye(c["a"], dtype=t), np.eye(c["b"], dtype=t)]
    return [mest.scm(x) if s0 is None else s0]


def change(new, old):
    return max(np.linalg.norm(n-o)/np.linalg.norm(o)
               for n, o in zip(new, old))


def label(c, rec):
    if c["est"] == "kron":
        kron.label(c, rec)
        rec.label("kron")
    else:
        mest.label(c, rec)


def counted(it, k, what):
    need(isinstance(it, (int, np.integer)) and int(it) == k, lambda:
         "%s: reports %r iterations, %d were done" % (what, it, k))


@sub("C18", "stops_when_it_should", case(), quick=400, shards=2,
     rule="stopped by the tolerance after more than one iteration, or by the "
          "limit")
def _(c, rec):
    x, s0 = load(c)
    prev = first(c, x, s0)
    trace = []
    for k in range(1, c["lim"]+1):
        # one iteration more at a time, from the beginning
        cur, d, it = run(c, x, s0, -1.0, k)
        counted(it, k, "without tolerance")
        e = change(cur, prev)
        need(abs(d-e) <= 1e-9*max(e, d) + 1e-12, lambda: "reported change "
             "%.8g, relative change of the last iteration %.8g" % (d, e))
        trace.append((cur, d))
        prev = cur
        if d <= c["tol"] and k >= 3:
            break
        if k >= 12 and c["lim"] > 12:
            break
    hit = [k for k, t in enumerate(trace) if t[1] <= c["tol"]]
    if hit or len(trace) == c["lim"]:
        stop = hit[0] if hit else len(trace)-1
        got, d, it = run(c, x, s0, c["tol"], c["lim"])
        counted(it, stop+1, "tolerance %g, limit %d" % (c["tol"], c["lim"]))
        for a, b in zip(got, trace[stop][0]):
            close(a, b, 1e-12, "estimate")
        need(d == trace[stop][1] or abs(d-trace[stop][1]) <= 1e-12,
             "reported change")
        # a change equal to the tolerance is not above it
        edge = trace[stop][1]
        if stop > 0 and edge > 1e-9 and edge < min(
                t[1] for t in trace[:stop]):
            def same_bits():
                return run(c, x, s0, -1.0, stop+1)[1] == edge
            over = [run(c, x, s0, edge, stop+5)[2] for _ in range(3)]
            need(not all(o > stop+1 for o in over) or not all(
                same_bits() for _ in range(3)), "goes on although the change "
                "is the tolerance")
        rec.nt(stop >= 1)
        rec.label("by tolerance" if hit else "by limit")
    else:
        got, d, it = run(c, x, s0, c["tol"], c["lim"])
        need(len(trace) < it <= c["lim"], lambda: "%r iterations, expected "
             "between %d and %d" % (it, len(trace)+1, c["lim"]))
        need(d <= c["tol"] or it == c["lim"], lambda: "stopped after %d of %d"
             " iterations at change %g, tolerance %g" % (
                 it, c["lim"], d, c["tol"]))
        rec.nt()
        rec.label("long")
    label(c, rec)


@sub("C18", "no_iteration_asked", case(), quick=60,
     rule="explicit starting point or Kronecker")
def _(c, rec):
    x, s0 = load(c)
    got, d, it = run(c, x, s0, c["tol"], 0)
    counted(it, 0, "limit 0")
    for a, b in zip(got, first(c, x, s0)):
        close(a, b, 1e-12, "estimate without any iteration")
    rec.nt(s0 is not None or c["est"] == "kron")
    label(c, rec)


@sub("C18", "exact_fixed_point", mest.case(big=False, pmax=1), quick=40,
     rule="a change of exactly zero was reached")
def _(c, rec):
    # with tolerance zero the iteration ends at a change of exactly zero
    c["start"] = "none"
    x, s0 = load(c)
    got, d, it = run(c, x, None, 0.0, 400)
    need(d == 0 or it == 400, lambda: "stopped at change %g" % d)
    if d == 0 and it > 1:
        w, dw, _ = run(c, x, None, -1.0, it-1)
        need(dw > 0, "went on after a change of zero")
    if d == 0:
        b, d2, it2 = run(c, x, got[0], 0.0, 50)
        need(it2 == 1 or d2 != 0 or it2 < 50, lambda: "%d iterations at an "
             "exact fixed point" % it2)
    rec.nt(d == 0)
    label(c, rec)


@st.composite
def split_case(draw):
    c = draw(mest.case(big=False, pmax=6))
    c["start"] = draw(mest.START)
    c["k"], c["l"] = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return c


@sub("C18", "split_run", split_case(), quick=400,
     rule="p > 1")
def _(c, rec):
    x, s0 = load(c)
    a, _, _ = run(c, x, s0, -1.0, c["k"])
    b, d, it = run(c, x, a[0], -1.0, c["l"])
    counted(it, c["l"], "continued run")
    w, dw, _ = run(c, x, s0, -1.0, c["k"]+c["l"])
    close(b[0], w[0], 1e-12, "continued run against one long run")
    need(abs(d-dw) <= 1e-12 + 1e-9*dw, "change of the continued run")
    rec.nt(c["p"] > 1)
    label(c, rec)


@sub("C18", "fixed_point_stays", mest.case(big=False, pmax=6), quick=300,
     shards=2, rule="p > 1 and a true fixed point was reached")
def _(c, rec):
    c["start"] = "none"
    x, s0 = load(c)
    a, d, it = run(c, x, None, 1e-11, 4000)
    # rounding of one iteration
    lim = 1e-11 + 1e-13*np.linalg.cond(a[0])
    if d > lim:
        need(it == 4000, "stopped at change %g after %s iterations" % (d, it))
        rec.label("not reached")
        return
    b, d2, it2 = run(c, x, a[0], max(10*lim, 1e-10), 50)
    counted(it2, 1, "start at the fixed point")
    need(d2 <= 10*lim, lambda: "change %g at the fixed point" % d2)
    close(b[0], a[0], 10*lim, "estimate started at the fixed point")
    rec.nt(c["p"] > 1)
    label(c, rec)


@sub("C18", "tighter_tolerance", case(), quick=250, shards=2,
     rule="the tighter run did more iterations")
def _(c, rec):
    x, s0 = load(c)
    lo = None
    for t in (1e-1, 1e-2, 1e-4, 1e-6):
        _, d, it = run(c, x, s0, t, 60)
        need(1 <= it <= 60, "%r iterations" % (it,))
        need(d <= t or it == 60, lambda: "stopped at change %g > %g after %d "
             "iterations" % (d, t, it))
        if lo is not None:
            need(it >= lo[1], "fewer iterations for a tighter tolerance")
            # a limit reached leaves the last change, equal for both runs
            need(d <= lo[0]*(1+1e-9) + 1e-15 or it == 60, lambda: "tolerance "
                 "%g reports change %g, looser one %g" % (t, d, lo[0]))
            rec.nt(it > lo[1] or rec.nontrivial)
        lo = (d, it)
    label(c, rec)


@st.composite
def cls_case(draw):
    c = draw(mest.case(big=False, pmax=6))
    c["start"] = draw(mest.START)
    c["tol"] = draw(st.sampled_from([None, .5, 1e-2, 1e-3, 1e-6]))
    c["lim"] = draw(st.sampled_from([None, 1, 2, 5, 30, 200]))
    c["norm"] = draw(st.sampled_from(["None", "trace", "determinant",
                                      "element"]))
    return c


@sub("C18", "class_is_function", cls_case(), quick=400,
     rule="p > 1, some option not default")
def _(c, rec):
    x, s0 = load(c)
    k = {n: v for n, v in (("tol", c["tol"]), ("iter_max", c["lim"]))
         if v is not None}
    full = dict(tol=1e-4, iter_max=100)
    full.update(k)
    fk = dict(full)
    if c["est"] == "tyler":
        k["normalisation"] = fk["normalisation"] = c["norm"]
    e = sut(mest.make, c["est"], c["par"], c["cplx"], **k)
    need(sut(e.fit, x, init=s0) is e, "fit does not return the estimator")
    s, d, it = sut(mest.call, c["est"], c["par"], x, init=s0, **fk)
    close(e.covariance_, s, 1e-12, "covariance of the class")
    need(e.iteration_ == it, lambda: "class reports %r iterations, function "
         "%r" % (e.iteration_, it))
    need(abs(e.err_-d) <= 1e-12 + 1e-9*abs(d), lambda: "class reports change "
         "%g, function %g" % (e.err_, d))
    need(it <= full["iter_max"] and (d <= full["tol"]
                                     or it == full["iter_max"]),
         "controls of the class")
    # and again with the defaults of the function
    s, d, it = sut(mest.call, c["est"], c["par"], x, init=s0)
    need(1 <= it <= 30 and (d <= 1e-4 or it == 30), lambda: "defaults of the "
         "function: change %g after %d iterations" % (d, it))
    rec.nt(c["p"] > 1 and (len(k) > 0 or s0 is not None))
    mest.label(c, rec)
