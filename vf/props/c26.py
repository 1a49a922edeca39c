"""C26: temporary seeding."""
import numpy as np
from hypothesis import strategies as st

from robuststats.utils.montecarlo import temp_seed

from ..core import META, need, same, sub

META["C26"] = {"assumptions": [
    "single-threaded use of NumPy's global generator (MT19937)"]}

DRAWS = ["rand", "randn", "randint", "gauss1", "permutation", "gamma",
         "choice", "uniform"]


def draw_from(r, kind, n):
    if kind == "rand":
        return r.random_sample(n)
    if kind == "randn":
        return r.standard_normal(n)
    if kind == "gauss1":                  # leaves a cached second normal
        return np.array([r.standard_normal() for _ in range(n)])
    if kind == "randint":
        return r.randint(0, 2**31-1, size=n)
    if kind == "permutation":
        return r.permutation(n+1)
    if kind == "gamma":
        return r.gamma(.5, 2., size=n)
    if kind == "choice":
        return r.choice(n+3, size=n+1, replace=False)
    return r.uniform(-1, 1, size=n)


SEED = st.one_of(st.integers(0, 5), st.integers(0, 2**32-1),
                 st.lists(st.integers(0, 2**32-1), min_size=1, max_size=3),
                 st.just("RandomState array"))
DRAW = st.fixed_dictionaries({"op": st.just("draw"),
                              "kind": st.sampled_from(DRAWS),
                              "n": st.integers(1, 7)})
RESEED = st.fixed_dictionaries({"op": st.just("reseed"),
                                "seed": st.integers(0, 2**32-1)})
EXITS = ["normal", "normal", "Exception", "KeyboardInterrupt", "SystemExit",
         "GeneratorExit", "return", "break"]


def block(body):
    return st.fixed_dictionaries({
        "op": st.just("block"), "seed": SEED,
        "exit": st.sampled_from(EXITS),
        "body": st.lists(body, max_size=4)})


BODY = st.recursive(st.one_of(DRAW, DRAW, RESEED), block, max_leaves=12)
CASE = st.fixed_dictionaries({
    "seed": st.integers(0, 2**32-1), "as": st.sampled_from(
        ["with", "with", "decorator", "manual"]),
    "ops": st.lists(st.one_of(DRAW, block(BODY)), min_size=1, max_size=8)})


class Boom(Exception):
    pass


EXC = {"Exception": Boom, "KeyboardInterrupt": KeyboardInterrupt,
       "SystemExit": SystemExit, "GeneratorExit": GeneratorExit}


def fix(seed):
    return np.array([3, 1, 4], dtype=np.uint32) if isinstance(seed, str) \
        else seed


def state(r):
    return r.get_state()


def same_state(a, b, what):
    need(a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:],
         "%s: generator state differs from the expected one (position %s, "
         "cached normal %s; expected %s, %s)" % (what, a[2], a[3:], b[2],
                                                 b[3:]))


def play(ops, ref, how, stats, depth=0):
    for o in ops:
        if o["op"] == "draw":
            same(draw_from(np.random, o["kind"], o["n"]),
                 draw_from(ref, o["kind"], o["n"]), "draw %s at depth %d" % (
                     o["kind"], depth))
        elif o["op"] == "reseed":
            np.random.seed(o["seed"])
            ref.seed(o["seed"])
        else:
            inner = np.random.RandomState()
            inner.seed(fix(o["seed"]))
            before = state(np.random)
            stats["depth"] = max(stats["depth"], depth+1)
            stats["exits"].add(o["exit"])
            stats["draws"] += any(d["op"] == "draw" for d in o["body"])
            try:
                enter(o, inner, how, stats, depth)
            except BaseException as e:                        # noqa: BLE001
                # the exception of the block comes out unchanged
                if not (o["exit"] in EXC and type(e) is EXC[o["exit"]]):
                    raise
            else:
                need(o["exit"] not in EXC, "%s did not leave the block"
                     % o["exit"])
            same_state(state(np.random), before, "after the block (%s)"
                       % o["exit"])
            same_state(before, state(ref), "outside the block")


def enter(o, inner, how, stats, depth):
    def body():
        play(o["body"], inner, how, stats, depth+1)
        same_state(state(np.random), state(inner), "inside the block")
        if o["exit"] in EXC:
            raise EXC[o["exit"]]("injected")
    if how == "decorator" and callable(temp_seed(0)):
        return temp_seed(fix(o["seed"]))(body)()
    if how == "manual":
        c = temp_seed(fix(o["seed"]))
        c.__enter__()
        try:
            body()
        except BaseException as e:
            if not c.__exit__(type(e), e, e.__traceback__):
                raise
        else:
            c.__exit__(None, None, None)
        return None
    for _ in range(2):
        with temp_seed(fix(o["seed"])):
            body()
            if o["exit"] == "return":
                return 1
            if o["exit"] == "break":
                break
        return None


@sub("C26", "histories_against_independent_generators", CASE, quick=1500,
     rule="a block that draws, followed by a draw outside, nested or left by "
          "an exception", shards=2)
def _(c, rec):
    np.random.seed(c["seed"])
    ref = np.random.RandomState(c["seed"])
    stats = {"depth": 0, "exits": set(), "draws": 0}
    play(c["ops"], ref, c["as"], stats)
    # and for a long time after
    same(np.random.standard_normal(700), ref.standard_normal(700),
         "draws after the history")
    rec.nt(stats["draws"] and (stats["depth"] > 1
                               or stats["exits"] - {"normal"}))
    rec.label("depth=%d" % stats["depth"], c["as"],
              *["exit=" + e for e in stats["exits"]])


@sub("C26", "refused_seed_leaves_the_generator", st.fixed_dictionaries({
    "seed": st.integers(0, 2**32-1), "pre": DRAW,
    "bad": st.sampled_from(["negative", "text", "float", "large"])}),
    quick=200, rule="every case")
def _(c, rec):
    np.random.seed(c["seed"])
    ref = np.random.RandomState(c["seed"])
    for r in (np.random, ref):
        draw_from(r, c["pre"]["kind"], c["pre"]["n"])
    bad = {"negative": -1, "text": "a", "float": 1.5, "large": 2**40}
    ran = False
    try:
        with temp_seed(bad[c["bad"]]):
            ran = True
    except (ValueError, TypeError):
        pass
    need(not ran, "block ran with an invalid seed")
    same_state(state(np.random), state(ref), "after a refused seed")
    rec.nt()
    rec.label(c["bad"])


@sub("C26", "unseeded_block_is_also_contained", st.fixed_dictionaries({
    "seed": st.integers(0, 2**32-1), "pre": DRAW, "body": DRAW}),
    quick=100, rule="every case")
def _(c, rec):
    np.random.seed(c["seed"])
    ref = np.random.RandomState(c["seed"])
    for r in (np.random, ref):
        draw_from(r, c["pre"]["kind"], c["pre"]["n"])
    with temp_seed(None):                  # fresh entropy inside
        draw_from(np.random, c["body"]["kind"], c["body"]["n"])
    same_state(state(np.random), state(ref), "after a block without seed")
    rec.nt()
