#!/opt/pycold-venv/bin/python
"""Check one property by deterministic simulation: run.py --property C01 [--tier quick|thorough] | --replay FILE"""
import argparse, atexit, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from sim import build
PY = build.PY
# (number of scenarios, wall-clock cap in seconds) per property and tier
LIMITS = {"quick": {}, "thorough": {}}
DEFAULT = {"quick": (8000, 80.0), "thorough": (400000, 1200.0)}
NSH = 8


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            if os.access(d, os.W_OK) and shutil.disk_usage(d).free > 2 << 30:
                return d
        except OSError:
            pass
    return None


def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             PYTHONPATH=VERIF, TZ="UTC", OMP_THREAD_LIMIT="1", GDAL_NUM_THREADS="1", GDAL_PAM_ENABLED="YES")
    return e


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--count", type=int)
    ap.add_argument("--shards", type=int, default=NSH)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pycoldsim-", dir=scratch_base())
    procs = []

    def clean():
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    atexit.register(clean)
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(3))
    snap = os.path.join(tmp, "snap")
    os.mkdir(snap)
    try:
        from sim.props import PROPS
        prop0 = a.property or json.load(open(a.replay))["property"]
        vs = PROPS[prop0].get("variants", ())
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(build.snapshot, snap, PROPS[prop0].get("main", "plain"))]
            for v in vs:
                os.mkdir(snap + "-" + v)
                fs.append(ex.submit(build.snapshot, snap + "-" + v, v))
            for f in fs:
                f.result()
    except Exception as e:
        print("the package does not build: %s" % e)
        sys.exit(2)

    def launch(prop, k, extra):
        scr = os.path.join(tmp, "s%s" % k)
        os.makedirs(scr)
        out = os.path.join(tmp, "out%s" % k)
        open(out, "w").close()
        p = subprocess.Popen([PY, "-m", "sim.explore", "--prop", prop, "--tier", a.tier, "--seed", a.seed, "--snap", snap,
                              "--scratch", scr, "--out", out] + extra, env=env(), cwd=VERIF, start_new_session=True,
                             stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "err%s" % k), "w"))
        procs.append(p)
        return p, out

    if a.replay:
        d = json.load(open(a.replay))
        prop = d["property"]
        p, out = launch(prop, "replay", ["--replay", os.path.abspath(a.replay)])
        p.wait()
        r = [json.loads(l) for l in open(out)]
        if not r:
            print(open(os.path.join(tmp, "errreplay")).read()[-2000:])
            sys.exit(2)
        r = r[0]
        hit = [t for c, t in r["own"] if c == d["class"]]
        print("digest %s (recorded %s)" % (r["digest"][:16], d["digest"][:16]))
        if hit:
            print("reproduced: %s" % hit[0])
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            sys.exit(1)
        print("not reproduced on this tree")
        sys.exit(0)

    prop = a.property
    n, cap = LIMITS[a.tier].get(prop, DEFAULT[a.tier])
    n, cap = a.count or n, a.budget or cap
    kf = known(prop)
    runs = []
    for k in range(a.shards):
        runs.append(launch(prop, k, ["--shard", str(k), "--nshards", str(a.shards), "--count", str(n), "--budget", str(cap),
                                     "--known", json.dumps([x[0] for x in kf])]))
    pos = [0] * len(runs)
    events = [[] for _ in runs]
    viol = None
    hard = t0 + cap + 300

    def poll():
        for k, (p, out) in enumerate(runs):
            with open(out) as f:
                f.seek(pos[k])
                for l in iter(f.readline, ""):
                    if not l.endswith("\n"):
                        break
                    pos[k] = f.tell()
                    events[k].append(json.loads(l))
    while True:
        alive = [p for p, o in runs if p.poll() is None]
        poll()
        if any(e["t"] == "viol" for ev in events for e in ev):
            break
        if not alive or time.time() > hard:
            break
        time.sleep(0.1)
    poll()
    ev = [e for l in events for e in l]
    crashed = [k for k, (p, o) in enumerate(runs) if p.poll() not in (None, 0)]
    vs = [e for e in ev if e["t"] == "viol"]
    status, lines = 0, []
    unconf = []
    for v in sorted(vs, key=lambda e: (len(e["plan"]["faults"]) + len(e["plan"]["switches"]), e["i"])):
        rp = os.path.join(VERIF, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s-%s-%d.json" % (prop, a.seed, v["i"]))
        v = {k: x for k, x in v.items() if k != "t"}
        with open(path, "w") as f:
            json.dump(v, f, indent=1, sort_keys=True)
        p, out = launch(prop, "gate%d" % v["i"], ["--replay", path])
        p.wait()
        r = [json.loads(l) for l in open(out)]
        if r and r[0]["digest"] == v["digest"] and any(c == v["class"] for c, t in r[0]["own"]):
            viol = v
            lines.append("%s: %s" % (v["class"], v["text"]))
            lines.append("minimised: %d forced scheduling decisions, %d faults (from %d, %d)" % (
                len(v["plan"]["switches"]), len(v["plan"]["faults"]), v["original_size"]["switches"], v["original_size"]["faults"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            status = 1
            break
        unconf.append(v["i"])
    notrep = [e for e in ev if e["t"] == "elsewhere" and "repeatable" in e["why"]]
    if status == 0 and (unconf or notrep):
        print("a violation was seen but does not replay: %s" % (unconf or [(e["i"], e["own"][:1]) for e in notrep[:3]]))
        status = 2
    if status == 0 and crashed:
        print("exploration process failed: %s" % open(os.path.join(tmp, "err%s" % crashed[0])).read()[-3000:])
        status = 2
    rr = [e for e in ev if e["t"] == "run"]
    if status == 0 and not rr:
        print("no scenario was executed")
        status = 2
    wall = time.time() - t0
    stats = {}
    for e in rr:
        for k, x in e["stats"].items():
            if isinstance(x, (int, float)):
                stats[k] = round(stats.get(k, 0) + x, 3)
    from sim import evid
    evid.write(VERIF, prop, a.tier, a.seed, rr, stats, ev, wall, status, viol, kf)
    for k, what in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s: %d simulated runs, %d distinct schedules, %.0f simulated s, %d faults, %.1f s wall" % (
        prop, a.tier, len(rr), len({e["sched"] for e in rr}), stats.get("sim_s", 0), evid.nfaults(stats), wall))
    if os.environ.get("VERIF_DEBUG"):
        for e in ev:
            if e["t"] in ("elsewhere", "known"):
                print(json.dumps({k: e[k] for k in e if k not in ("plan", "scn")}))
    for l in lines:
        print(l)
    sys.stdout.flush()
    sys.exit(status)


if __name__ == "__main__":
    main()
