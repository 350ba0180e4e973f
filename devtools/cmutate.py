#!/opt/pycold-venv/bin/python
"""Mutation test of the checks for one C file of the package (as mutate.py does for Python).
cmutate.py FILE.c PROPS(comma) OUT --lines a-b[,c-d] [--budget S] [--jobs N] [--sample N] [--only k,..]"""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF); sys.path.insert(0, VERIF + "/devtools")
OPS = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->=])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w\])]) \+ (?=[\w(])", " - "), (r"(?<=[\w\])]) - (?=[\w(])", " + "),
       (r"\+\+", "--"), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"), (r"(?<=[\w\])]) \* (?=[\w(])", " + "), (r"(?<=[\w\])]) / (?=[\w(])", " * "),
       (r"(?<![\w.])(\d+)(?![\w.])", None)]


def checks(lines, ranges):
    """one check of a result or of a memory request is left out"""
    for i, l in enumerate(lines):
        if any(a <= i + 1 <= b for a, b in ranges):
            m = re.search(r"\bif\s*\((?=.*(== NULL|!= SUCCESS|== ERROR|== FAILURE|!\s*\w+\s*\)))", l)
            if m and "/*" not in l[:m.start()] and "//" not in l[:m.start()]:
                yield i + 1, "unchecked", l[:m.end()] + "0 && " + l[m.end():]


def mutants(lines, ranges):
    com = False
    for i, l in enumerate(lines):
        t = l
        if com:
            if "*/" not in t:
                continue
            t = " " * (t.index("*/") + 2) + t[t.index("*/") + 2:]; com = False
        t = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), t)
        if "/*" in t:
            t = t[:t.index("/*")]; com = True
        if "//" in t:
            t = t[:t.index("//")]
        if not any(a <= i + 1 <= b for a, b in ranges) or not t.strip() or t.lstrip().startswith("#") or re.search(r"printf|RETURN_ERROR|^\s*(int|float|double|char|short|bool|static|void)\b[^=]*;", t):
            continue
        for rx, to in OPS:
            for m in re.finditer(rx, t):
                new = str(int(m.group()) + 1) if to is None else to
                yield i + 1, m.group() + "->" + new, t[:m.start()] + new + t[m.end():]
        if re.match(r"\s*[\w\[\]\.\->\*\(\) \+]+\s*(=|\+=|-=|\+\+|--)[^=].*;\s*$|\s*[\w\[\]\.\->]+\s*(\+\+|--)\s*;\s*$|\s*(break|continue)\s*;", t) and "for" not in t:
            yield i + 1, "delete", ";"


RUNPY = None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("props"); ap.add_argument("out"); ap.add_argument("--lines", required=True)
    ap.add_argument("--budget", default="40"); ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only"); ap.add_argument("--sample", type=int); ap.add_argument("--seed", default="m"); ap.add_argument("--checks", action="store_true")
    a = ap.parse_args()
    from sim import build
    import mutate, run as runmod
    path = build.REPO + "/src/cxx/" + a.file
    lines = open(path).read().split("\n")
    rs = [tuple(int(v) for v in x.split("-")) for x in a.lines.split(",")]
    ms = [(k,) + m for k, m in enumerate((checks if a.checks else mutants)(lines, rs))]
    if a.only:
        ks = {int(x) for x in a.only.split(",")}
        ms = [m for m in ms if m[0] in ks]
    if a.sample and len(ms) > a.sample:
        ms = sorted(random.Random(1).sample(ms, a.sample))
    print(len(ms), "mutants", flush=True)
    base = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    open(base + "/run.py", "w").write(mutate.RUN)
    os.mkdir(base + "/snap0")
    # one full build whose intermediate files are kept
    cmds, keep = [], {}
    run0, rm0, cache0 = build._run, build.shutil.rmtree, build.CACHE
    build._run = lambda cmd, **kw: (cmds.append(cmd), run0(cmd, **kw))
    build.CACHE = base + "/cache"
    build.shutil.rmtree = lambda *x, **k: None
    build.snapshot(base + "/snap0")
    build.shutil.rmtree, build._run, build.CACHE = rm0, run0, cache0
    comp = next(c for c in cmds if c[0] == "gcc" and "-c" in c and c[c.index("-c") + 1].endswith("/" + a.file))
    redef = next((c for c in cmds if c[0] == "objcopy" and c[-1] == comp[-1]), None)
    ar = next(c for c in cmds if c[0] == "ar" and comp[-1] in c)
    link = next(c for c in cmds if "-shared" in c)
    so = os.path.basename(link[link.index("-o") + 1])

    def one(m):
        k, line, kind, text = m
        d = "%s/m%d" % (base, k)
        r = {"runs": 0, "hit": ["error", 0, "?", ""]}
        try:
            shutil.copytree(base + "/snap0", d + "/snap")
            os.mkdir(d + "/scr")
            src = comp[comp.index("-c") + 1]
            sd = d + "/src/cxx"
            shutil.copytree(os.path.dirname(src), sd)
            open(sd + "/" + a.file, "w").write("\n".join(lines[:line - 1] + [text] + lines[line:]))
            sub = lambda c, x: [x.get(w, w) for w in c]
            x = {src: sd + "/" + a.file, comp[-1]: d + "/o.o"}
            run0(sub(comp, x))
            if redef:
                run0(sub(redef, x))
            x[ar[2]] = d + "/lib.a"
            run0(sub(ar, x))
            x[link[link.index("-o") + 1]] = d + "/" + so
            run0(sub(link, x))
            shutil.copy(d + "/" + so, d + "/snap/pycold/" + so)
            e = runmod.env()
            p = subprocess.Popen([build.PY, base + "/run.py", d + "/snap", d + "/scr", d + "/out", a.props, a.budget, a.seed],
                                 env=e, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            try:
                p.wait(float(a.budget) + 120)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait()
            try:
                r = json.load(open(d + "/out"))
            except Exception:
                r = {"runs": -1, "hit": ["noresult", 0, "noresult", ""]}
        except Exception as ex:
            r["hit"] = ["build", 0, repr(ex)[:200], ""]
        shutil.rmtree(d, ignore_errors=True)
        return m, r
    surv = 0
    with open(a.out, "a") as f, concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for m, r in ex.map(one, ms):
            surv += r["hit"] is None
            f.write(json.dumps({"k": m[0], "line": m[1], "kind": m[2], "text": m[3].strip()[:150], **r}) + "\n")
            f.flush()
    print(surv, "survived")
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
