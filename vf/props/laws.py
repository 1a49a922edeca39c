"""Laws with a singular matrix (C02, C03)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen


@st.composite
def singular_case(draw):
    p = draw(st.integers(2, 7))
    return {"p": p, "r": draw(st.integers(1, p-1)), "key": draw(gen.KEY),
            "n": draw(st.integers(2, 6)), "cplx": draw(st.booleans()),
            "logs": draw(st.integers(-3, 3)), "df": draw(st.sampled_from(
                [.5, 1, 3, 20.])), "mean": draw(st.booleans())}


def singular(c):
    """points on the support, location, matrix of rank r, real
    representations"""
    p, r, cp = c["p"], c["r"], c["cplx"]
    q = gen.unitary(c["key"], "q", p, cp)[:, :r]
    w = 10.0**(c["logs"] + gen.rng(c["key"], "w").random(r))
    s = (q*w) @ q.conj().T
    s = (s + s.conj().T)/2
    m = np.sqrt(10.0**c["logs"])*gen.normal(c["key"], "m", (p,), cp) \
        if c["mean"] else np.zeros(p, dtype=s.dtype)
    x = m + gen.normal(c["key"], "g", (c["n"], r), cp) @ (q*np.sqrt(w)).T
    if not cp:
        return x, m, s, x, m, s

    def real(a):
        return np.concatenate([a.real, a.imag], -1)
    return x, m, s, real(x), real(m), .5*np.block(
        [[s.real, -s.imag], [s.imag, s.real]])
