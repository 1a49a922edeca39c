"""Mutation campaign used while building (no registered check runs it):
python3 tools/mutate.py [file substring] [--n N] [--every K] [--offset O]
Applies one small change at a time to a scratch copy of robuststats, runs the
checks of the properties the file concerns with few cases, and prints the
changes none of them reports."""
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "models/mappings.py": "C01 C02 C03 C04 C12 C28",
    "models/probability.py": "C02 C03 C04 C28",
    "models/cost.py": "C07 C15 C28",
    "models/manifolds.py": "C08 C09 C10 C11 C24 C28",
    "utils/linalg.py": "C05 C06 C25 C28",
    "utils/backend.py": "C05 C07",
    "estimation/covariance.py": "C13 C16 C17 C18 C14 C15 C07 C19 C27 C28 C12",
    "estimation/structured.py": "C22 C23 C18 C19 C27 C28 C12",
    "estimation/base.py": "C12 C21 C20 C19 C27 C28",
    "online/estimation.py": "C24 C19 C27 C28",
    "utils/generation_data.py": "C25 C26",
    "utils/montecarlo.py": "C26",
    "utils/checking.py": "C27 C21",
}
UNWRAP = {"real", "conj", "conjugate", "multiherm", "sqrt", "abs", "log",
          "multihconj", "multitransp", "squeeze", "array", "deepcopy", "exp",
          "inv", "asarray", "astype", "arraytoreal", "arraytocomplex",
          "covariancetoreal", "covariancetocomplex", "check_array", "round",
          "transpose", "sqrtm", "proj", "reshape"}


def muts(tree):
    """(description, line, function applying the change to a copied tree)"""
    nodes = list(ast.walk(tree))
    par = {}
    for i, n in enumerate(nodes):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        par[x] = (n, f, j)
            elif isinstance(v, ast.AST):
                par[v] = (n, f, None)
    out = []

    def skip(n):
        while n in par:
            if isinstance(n, ast.Call):
                s = ast.unparse(n.func)
                if s.startswith(("logging", "pbar", "tqdm", "logging_tqdm",
                                 "warnings")):
                    return True
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
                return True
            if isinstance(n, ast.arguments):
                return "default"
            n = par[n][0]
        return False

    def rep(n, new, what):
        out.append((what, n, new))
    for n in nodes:
        s = skip(n)
        if s is True:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt],
                  ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
                  ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                  ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
                  ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for o in sw[type(n.ops[0])]:
                m = copy.deepcopy(n)
                m.ops = [o()]
                rep(n, m, "compare")
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
                  ast.Div: ast.Mult, ast.Pow: ast.Mult,
                  ast.MatMult: None, ast.Mod: ast.Add, ast.FloorDiv: ast.Mult}
            o = sw.get(type(n.op))
            if o and not (isinstance(n.left, ast.Constant)
                          and isinstance(n.left.value, str)):
                m = copy.deepcopy(n)
                m.op = o()
                rep(n, m, "operator")
            if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
                rep(n, copy.deepcopy(n.left), "left only")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float,
                                                               bool):
            v = n.value
            for w in ([not v] if isinstance(v, bool) else
                      [v+1] + ([v-1] if v else []) if isinstance(v, int)
                      else [v*1.5]):
                rep(n, ast.Constant(w), "constant")
        if isinstance(n, ast.UnaryOp):
            rep(n, copy.deepcopy(n.operand), "unary")
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            rep(n, m, "and/or")
            for x in n.values:
                rep(n, copy.deepcopy(x), "one of and/or")
        if isinstance(n, (ast.If, ast.IfExp)):
            for w in (True, False):
                m = copy.deepcopy(n)
                m.test = ast.Constant(w)
                rep(n, m, "condition %s" % w)
        if isinstance(n, ast.While):
            pass
        if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(
                n.ctx, ast.Load):
            rep(n, copy.deepcopy(n.value), "no .T")
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else \
                getattr(n.func, "id", "")
            if name in UNWRAP:
                mod = isinstance(n.func, ast.Attribute) and ast.unparse(
                    n.func.value) in ("np", "be", "la", "linalg", "sp.linalg",
                                      "self", "a_la", "np_a", "be_la")
                if isinstance(n.func, ast.Attribute) and not mod:
                    rep(n, copy.deepcopy(n.func.value), "no ." + name)
                elif n.args:
                    rep(n, copy.deepcopy(n.args[0]), "no " + name)
            for j, k in enumerate(n.keywords):
                m = copy.deepcopy(n)
                del m.keywords[j]
                rep(n, m, "no keyword %s" % k.arg)
            if len(n.args) > 1:
                m = copy.deepcopy(n)
                m.args.pop()
                rep(n, m, "no last argument")
                m = copy.deepcopy(n)
                m.args[0], m.args[1] = m.args[1], m.args[0]
                rep(n, m, "arguments exchanged")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, ast.Pass(), "no statement")
        if isinstance(n, ast.AugAssign):
            rep(n, ast.Pass(), "no statement")
        if isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, ast.Pass(), "no statement")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and any(isinstance(x, ast.Name) and x.id == n.targets[0].id
                        for x in ast.walk(n.value)):
            rep(n, ast.Pass(), "no reassignment")
        if isinstance(n, ast.Slice):
            for f in ("lower", "upper"):
                if getattr(n, f) is not None:
                    m = copy.deepcopy(n)
                    setattr(m, f, None)
                    rep(n, m, "no slice " + f)
    # raise -> pass
    for n in nodes:
        if isinstance(n, ast.Raise):
            rep(n, ast.Pass(), "no raise")
        if isinstance(n, ast.Assert):
            rep(n, ast.Pass(), "no assert")
    res = []
    for what, n, new in out:
        p, f, j = par[n]
        old = ast.unparse(n)
        try:
            txt = ast.unparse(new)
        except Exception:
            continue
        if txt == old:
            continue
        if j is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[j] = new
        ast.fix_missing_locations(tree)
        try:
            src = ast.unparse(tree)
        finally:
            if j is None:
                setattr(p, f, n)
            else:
                getattr(p, f)[j] = n
        res.append(("%s: %s -> %s" % (what, old.split("\n")[0][:110],
                                      txt.split("\n")[0][:110]),
                    getattr(n, "lineno", 0), src))
    return res


def run(job):
    i, f, what, line, src, pids, n = job
    w = "/tmp/mut-%d-%d" % (os.getpid(), i)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/repo/robuststats", w + "/robuststats")
    open(w + "/robuststats/" + f, "w").write(src)
    try:
        for p in pids:
            try:
                r = subprocess.run(
                    ["python3", os.path.join(V, "check.py"), p, "--serial",
                     "--n", str(n)], cwd=V, capture_output=True, text=True,
                    timeout=240,
                    env=dict(os.environ, VERIF_REPO=w, VERIF_NOEV="1",
                             VERIF_SHRINK="1"))
            except subprocess.TimeoutExpired:
                return (f, line, what, p + " (time)")
            if r.returncode != 0:
                return (f, line, what, p + ("" if "VIOLATION" in r.stdout
                                            else " (harness %d)"
                                            % r.returncode))
        return (f, line, what, None)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    a = sys.argv[1:]

    def opt(k, d):
        return int(a[a.index(k)+1]) if k in a else d
    n, every, off = opt("--n", 40), opt("--every", 1), opt("--offset", 0)
    only = a[0] if a and not a[0].startswith("-") else ""
    jobs = []
    for f, pids in FILES.items():
        if only in f:
            tree = ast.parse(open("/repo/robuststats/" + f).read())
            for what, line, src in muts(tree):
                jobs.append((len(jobs), f, what, line, src, pids.split(), n))
    jobs = jobs[off::every]
    print(len(jobs), "changes", flush=True)
    alive = 0
    with cf.ThreadPoolExecutor(opt("--jobs", 8)) as ex:
        for f, line, what, p in ex.map(run, jobs):
            if p is None:
                alive += 1
                print("ALIVE %s:%d %s" % (f, line, what), flush=True)
            elif "(" in p:
                print("note %s:%d %s [%s]" % (f, line, what, p), flush=True)
    print("alive: %d of %d" % (alive, len(jobs)), flush=True)


if __name__ == "__main__":
    main()
