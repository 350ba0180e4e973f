"""mkbug.py FILE: writes /verif/seeded/<id>/ for every bug() of FILE (patch against /repo's working tree)."""
import json, os, shutil, subprocess, sys
R, V = "/repo", "/verif"
IMG = "src/python/pycold/imagetool/"


def bug(id, prop, needs, breaks, edits, demo, helpers=("demo_tile.py",), mod="demo_tile"):
    d = "%s/seeded/%s" % (V, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    texts = {}
    for f, old, new, *k in edits:        # k: which of several occurrences
        s = texts.get(f) or open("%s/%s" % (R, f)).read()
        assert s.count(old) == 1 or k, (id, f, s.count(old), old)
        parts = s.split(old)
        k = 1 + (k[0] if k else 0)
        texts[f] = old.join(parts[:k]) + new + old.join(parts[k:])
    out = ""
    for f, s in texts.items():
        p = "/tmp/mkbug.new"
        open(p, "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "%s/%s" % (R, f), p], capture_output=True, text=True)
        out += "diff --git a/%s b/%s\n" % (f, f) + r.stdout
        bl = subprocess.run(["git", "blame", "-s", f], cwd=R, capture_output=True, text=True).stdout.split("\n")
        n = own = 0
        ln = 0
        for l in r.stdout.split("\n")[2:]:
            if l.startswith("@@"):
                ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-"):
                n += 1
                own += not bl[ln - 1].startswith("^")
                ln += 1
            elif not l.startswith("+"):
                ln += 1
        print("%s %s: %d lines removed, %d of them mine" % (id, f, n, own))
    open(d + "/patch.diff", "w").write(out)
    os.remove("/tmp/mkbug.new")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/pycold-venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom %s import *\n" % mod + demo.lstrip("\n"))
    for h in helpers:
        shutil.copy("%s/devtools/%s" % (V, h), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
