#!/opt/pycold-venv/bin/python
"""Mutation test of the checks: small changes of one Python file of the package, each run against the simulations.
mutate.py FILE(relative to src/python/pycold) PROPS(comma) OUT [--cov FILE] [--budget S] [--jobs N] [--only I,J]
Every mutant is judged by any violation the simulations of PROPS report (whatever property it belongs to)."""
import argparse, ast, concurrent.futures, copy, json, os, random, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
SKIPCALLS = ("print", "warn")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def skipfun(n):
    return n.name in ("tileprocessing_report", "__init__") and n.name != "__init__"


def mutants(src):
    """yields (line, text, function applying the change to a fresh copy of the tree by node index)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    parent = {}
    for i, n in enumerate(nodes):
        for c in ast.iter_child_nodes(n):
            parent[c] = n
    def infun(n):
        f = None
        while n in parent:
            if isinstance(n, ast.FunctionDef):
                if n.name in ("tileprocessing_report",):
                    return None
                f = n
            p = parent[n]
            if isinstance(p, ast.FunctionDef) and (n in p.decorator_list or n in p.args.defaults):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in SKIPCALLS:
                return None
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return None
            if isinstance(n, ast.JoinedStr):
                return None
            n = p
        return f
    for i, n in enumerate(nodes):
        f = infun(n) if not isinstance(n, (ast.Module, ast.FunctionDef)) else None
        if f is None:
            continue
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in CMP:
                yield line, "cmp", i, 0
        elif isinstance(n, ast.BoolOp):
            yield line, "boolop", i, 0
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield line, "not", i, 0
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                yield line, "binop", i, 0
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            yield line, "const+1", i, 1
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield line, "bool", i, 0
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield line, "delete call", i, 0
        elif isinstance(n, ast.AugAssign):
            yield line, "delete aug", i, 0
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield line, "continue/break -> pass", i, 0
        elif isinstance(n, ast.If):
            yield line, "if true", i, 1
            yield line, "if false", i, 0
        elif isinstance(n, ast.keyword) and n.arg and isinstance(parent[n], ast.Call):
            yield getattr(n.value, "lineno", line), "drop keyword %s" % n.arg, i, 0
        elif isinstance(n, ast.Slice) and (n.lower or n.upper):
            yield line, "slice", i, 0


def apply(src, kind, idx, arg):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[idx]
    before = ast.unparse(n)[:100].replace("\n", " ")

    class R(ast.NodeTransformer):
        def visit(self, x):
            if x is n:
                if kind == "cmp":
                    x.ops = [CMP[type(x.ops[0])]()]
                elif kind == "boolop":
                    x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
                elif kind == "not":
                    return x.operand
                elif kind == "binop":
                    x.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}[type(x.op)]()
                elif kind == "const+1":
                    x.value += 1
                elif kind == "bool":
                    x.value = not x.value
                elif kind.startswith("delete") or kind.startswith("continue"):
                    return ast.copy_location(ast.Pass(), x)
                elif kind.startswith("if"):
                    x.test = ast.copy_location(ast.Constant(bool(arg)), x.test)
                elif kind.startswith("slice"):
                    if x.lower is not None:
                        x.lower = None
                    else:
                        x.upper = None
                return x
            if isinstance(x, ast.Call) and kind.startswith("drop") and n in x.keywords:
                x.keywords = [k for k in x.keywords if k is not n]
                return x
            return super().visit(x)
    t = R().visit(tree)
    ast.fix_missing_locations(t)
    return ast.unparse(t), before


RUN = r'''
import sys, json, os, time, warnings, traceback
snap, scratch, out, props, budget, seed = sys.argv[1:7]
sys.path.insert(0, snap); warnings.filterwarnings("ignore")
dn = os.open(scratch + "/native.out", os.O_WRONLY | os.O_CREAT | os.O_APPEND); os.dup2(dn, 1)
res = {"runs": 0, "hit": None}
try:
    from sim import explore, scen
    exs = []
    for p in props.split(","):
        e = explore.Explorer(p, scratch, None)
        if hasattr(e.mod, "setup"): e.mod.setup(snap, scratch)
        exs.append((p, e))
    t_end = time.time() + float(budget)
    i = 0
    while time.time() < t_end and not res["hit"]:
        for p, e in exs:
            j = i * 7 if scen.PER.get(p, 1) > 1 else i       # one or two executions per data set
            s = scen.GEN[p](p, seed, j, "quick")
            r = e.run(s)
            res["runs"] += 1
            if r.violations:
                res["hit"] = [p, j] + list(r.violations[0])
                break
            if time.time() > t_end: break
        i += 1
except BaseException as ex:
    res["hit"] = ["setup", -1, type(ex).__name__, traceback.format_exc()[-300:]]
json.dump(res, open(out, "w"))
'''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("props"); ap.add_argument("out")
    ap.add_argument("--cov"); ap.add_argument("--budget", default="40"); ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only"); ap.add_argument("--sample", type=int); ap.add_argument("--funcs"); ap.add_argument("--seed", default="m")
    a = ap.parse_args()
    from sim import build
    import run as runmod
    path = build.REPO + "/src/python/pycold/" + a.file
    src = open(path).read()
    cov = None
    if a.cov:
        cov = {int(l.rsplit(":", 1)[1]) for l in open(a.cov) if l.startswith(a.file + ":")}
    ms = list(mutants(src))
    if cov is not None:
        un = sorted({m[0] for m in ms if m[0] not in cov})
        ms = [m for m in ms if m[0] in cov or any(l in cov for l in range(m[0] - 3, m[0] + 1))]
    ms = [(k,) + m for k, m in enumerate(ms)]
    if a.only:
        ks = {int(x) for x in a.only.split(",")}
        ms = [m for m in ms if m[0] in ks]
    if a.sample and len(ms) > a.sample:
        ms = sorted(random.Random(1).sample(ms, a.sample))
    print(len(ms), "mutants")
    base = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    open(base + "/run.py", "w").write(RUN)
    os.mkdir(base + "/snap0")
    build.snapshot(base + "/snap0")

    def one(m):
        k, line, kind, idx, arg = m
        try:
            new, before = apply(src, kind, idx, arg)
            d = "%s/m%d" % (base, k)
            shutil.copytree(base + "/snap0", d + "/snap")
            os.mkdir(d + "/scr")
            open(d + "/snap/pycold/" + a.file, "w").write(new)
            e = runmod.env()
            p = subprocess.Popen([build.PY, base + "/run.py", d + "/snap", d + "/scr", d + "/out", a.props, a.budget, a.seed],
                                 env=e, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            try:
                p.wait(float(a.budget) + 200)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait()
            try:
                r = json.load(open(d + "/out"))
            except Exception:
                r = {"runs": -1, "hit": ["noresult", 0, "noresult", ""]}
            shutil.rmtree(d, ignore_errors=True)
            return m, before, r
        except Exception as ex:
            return m, "?", {"runs": 0, "hit": ["error", 0, repr(ex), ""]}
    surv = 0
    with open(a.out, "a") as f, concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for m, before, r in ex.map(one, ms):
            surv += r["hit"] is None
            f.write(json.dumps({"k": m[0], "line": m[1], "kind": m[2], "arg": m[4], "before": before, **r}) + "\n")
            f.flush()
    print(surv, "survived")
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
