"""C30: what the display helpers show is what they were given."""
import contextlib
import io
import logging
import re

import numpy as np
from hypothesis import strategies as st

from robuststats.utils import verbose as V

from .. import gen
from ..core import META, need, sub, sut

META["C30"] = {"assumptions": [
    "matrices are two-dimensional; formats are a precision and a type",
    "a progress display with no minimal interval and an explicit miniters "
    "shows every step (tqdm's contract)"]}

SPECIAL = [0.0, -0.0, 1.0, -1.0, np.nan, np.inf, -np.inf, 1e300, -1e-300]


@st.composite
def matrix(draw):
    return {"n": draw(gen.size(1, 12, 300, 20)),
            "m": draw(gen.size(1, 6, 120, 20)),
            "key": draw(gen.KEY), "log": draw(st.integers(-12, 12)),
            "kind": draw(st.sampled_from(["real", "int", "complex"])),
            "special": draw(st.booleans()),
            "order": draw(st.sampled_from(["C", "F", "stride"])),
            "fmt": draw(st.sampled_from(["g", ".3f", ".2e", ".12g", "e",
                                         None, "d"]))}


@sub("C30", "printed_matrix", matrix(), quick=400,
     rule="several rows and columns")
def _(c, rec):
    g = gen.rng(c["key"], "m")
    a = g.standard_normal((c["n"], c["m"]))*10.0**c["log"]
    if c["kind"] == "complex":
        a = a + 1j*g.standard_normal(a.shape)
    if c["kind"] == "int":
        a = g.integers(-10**6, 10**6, a.shape)
    elif c["special"]:
        for _ in range(3 + a.size//50):
            a[g.integers(c["n"]), g.integers(c["m"])] = SPECIAL[
                g.integers(len(SPECIAL))]
    fmt = c["fmt"]
    if fmt == "d" and c["kind"] != "int":
        fmt = "g"
    b = np.asfortranarray(a) if c["order"] == "F" else a
    if c["order"] == "stride":
        b = np.repeat(np.repeat(a, 2, 0), 3, 1)[::2, ::3]
    before = b.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if fmt is None:
            sut(V.matprint, b)
        else:
            sut(V.matprint, b, fmt)
    need(np.array_equal(before, b, equal_nan=c["kind"] != "int"),
         "the matrix is modified")
    lines = out.getvalue().split("\n")
    need(lines[-1] == "", "the last line does not end")
    lines = lines[:-1]
    need(len(lines) == c["n"], lambda: "%d lines for %d rows" % (
        len(lines), c["n"]))
    ends = None
    for i, s in enumerate(lines):
        words = s.split()
        want = [format(y, fmt or "g") for y in a[i]]
        need(words == want, lambda: "row %d is shown as %r and is %r" % (
            i, words, want))
        e = [t.end() for t in re.finditer(r"\S+", s)]
        need(ends is None or e == ends, lambda: "columns are not aligned: %r"
             % out.getvalue())
        ends = e
    rec.nt(c["n"] > 1 and c["m"] > 1)
    rec.label(c["kind"], fmt or "default")


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, r):
        self.seen.append((r.name, r.levelno, r.getMessage()))


@contextlib.contextmanager
def listening(name):
    log = logging.getLogger(name)
    h, level, prop = Keep(), log.level, log.propagate
    off = logging.root.manager.disable      # the harness silences logging
    logging.disable(logging.NOTSET)
    log.addHandler(h)
    log.setLevel(logging.DEBUG)
    log.propagate = False
    try:
        yield log, h.seen
    finally:
        log.removeHandler(h)
        log.setLevel(level)
        log.propagate = prop
        logging.disable(off)


@st.composite
def progress(draw):
    return {"n": draw(st.one_of(st.integers(0, 40), st.integers(0, 1500))),
            "own": draw(st.booleans()),
            "every": draw(st.integers(1, 7)),
            "mode": draw(st.sampled_from(["iterate", "update", "set"])),
            "desc": draw(st.sampled_from([None, "fit", "a: "])),
            "stop": draw(st.integers(0, 400)), "key": draw(gen.KEY)}


@sub("C30", "progress_display", progress(), quick=300,
     rule="several steps")
def _(c, rec):
    n, every = c["n"], c["every"]
    items = list(gen.rng(c["key"], "i").integers(0, 9, n))
    k = {} if c["desc"] is None else {"desc": c["desc"]}
    with listening(V.LOGGER.name) as (_, mod), \
            listening("vf.c30") as (log, own), \
            contextlib.redirect_stderr(io.StringIO()) as err:
        if c["own"]:
            k["logger"] = log
        shown, other = (own, mod) if c["own"] else (mod, own)
        if c["mode"] == "iterate":
            bar = sut(V.logging_tqdm, items, mininterval=0, miniters=every,
                      **k)
            need(not shown, "something is shown before the first step")
            got = [x for x in bar]
            need(got == items, "the items are changed")
            steps = n
        else:
            bar = sut(V.logging_tqdm, total=max(n, 1), mininterval=0,
                      miniters=every, **k)
            sut(bar.refresh)
            need(not shown, "something is shown before the first step")
            steps = min(n, c["stop"])
            for i in range(steps):
                if c["mode"] == "update":
                    sut(bar.update)
                else:            # as the estimation loop of structured.py
                    bar.n = i + 1
                    sut(bar.refresh)
            need(bar.n == steps, "the count is wrong")
            sut(bar.close)
    need(not other, "shown in the wrong logger")
    need(all(lv == logging.INFO for _, lv, _ in shown),
         "not shown as information")
    need(err.getvalue().strip() == "", lambda: "written out of the logger: %r"
         % err.getvalue())
    total = n if c["mode"] == "iterate" else max(n, 1)
    desc = c["desc"] or "progress"
    per, counts = [], []
    for _, _, m in shown:
        need(m.startswith(desc.rstrip(": ")), lambda: "message %r without its "
             "description" % m)
        f = re.search(r"(\d+)%", m)
        need(f, lambda: "no percentage in %r" % m)
        per.append(int(f.group(1)))
        q = re.search(r"(\d+)/(\d+)", m)
        need(q, lambda: "no count in %r" % m)
        a, b = int(q.group(1)), int(q.group(2))
        counts.append(a)
        need(b == total and a <= steps, lambda: "%r for %d steps out of %d"
             % (m, steps, total))
        need(abs(per[-1] - 100*a/b) <= .5 + 1e-9, lambda: "%r: percentage and "
             "count disagree" % m)
    need(per == sorted(per), lambda: "percentages %r decrease" % per)
    if steps and c["mode"] == "set":
        # the last one may be shown again when the display is closed
        need(counts[:steps] == list(range(1, steps+1)) and
             all(q == steps for q in counts[steps:]),
             lambda: "steps shown: %r" % counts)
    if steps and c["mode"] != "set":
        need(set(range(every, steps+1, every)) <= set(counts),
             lambda: "steps shown: %r of %d, one each %d" % (
                 counts, steps, every))
        need(len(shown) >= steps//every, lambda: "%d messages for %d steps, "
             "one each %d" % (len(shown), steps, every))
    rec.nt(steps > 1)
    rec.label(c["mode"], "own" if c["own"] else "module")
