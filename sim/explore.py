"""One exploration process: runs its share of the scenarios, confirms and minimises violations."""
import argparse, copy, json, os, shutil, sys, time, warnings

BUDGET_MIN = 60.0


def load(prop):
    import importlib
    from . import props
    P = props.PROPS[prop]
    return P, importlib.import_module("sim." + P["mod"])


def signature(viol, own):
    return [(c, t) for c, t in viol if c in own]


class Explorer:
    def __init__(self, prop, scratch, emit):
        self.prop, self.scratch, self.emit = prop, scratch, emit
        self.P, self.mod = load(prop)

    def run(self, scn, plan=None):
        from .core import Plan
        p = Plan(plan) if isinstance(plan, dict) else plan
        return self.mod.run(scn, self.scratch, plan=p)

    def own(self, res):
        return signature(res.violations, self.P["own"])

    def confirm(self, scn, res, t_end):
        """-> dict describing a confirmed, minimised violation, or (None, reason)"""
        plan = res.plan.to_json()
        r2 = self.run(scn, plan)
        if r2.digest != res.digest or self.own(r2) != self.own(res):
            return None, "not repeatable"
        cls = self.own(res)[0][0]
        fo = [c for c, t in self.own(res)]
        s0 = copy.deepcopy(scn)
        s0["faults"] = {}
        if hasattr(self.mod, "baseline"):
            s0 = self.mod.baseline(scn)
        differs = bool(plan["faults"]) or dict(s0, faults=0) != dict(scn, faults=0)
        if all(c in self.P["faultonly"] for c in fo) and differs:
            base = self.run(s0)
            have = {c for c, t in self.own(base)}
            left = [c for c in fo if c not in have]
            if not left:
                return None, "also without faults"
            cls = left[0]
            p0 = {"switches": plan["switches"], "faults": []}
            have |= {c for c, t in self.own(self.run(s0, p0))}
            left = [c for c in fo if c not in have]
            if not left:
                return None, "also without faults"
            cls = left[0]
        elif all(c in self.P["faultonly"] for c in fo):
            return None, "also without faults"
        best, bres = plan, r2
        n = 0

        def ok(p):
            nonlocal n, best, bres
            n += 1
            r = self.run(scn, p)
            if any(c == cls for c, t in self.own(r)):
                best, bres = r.plan.to_json(), r
                return True
            return False
        orig = (len(plan["switches"]), len(plan["faults"]))

        def ddmin(key):
            items = lambda: list(best["switches"].items()) if key == "switches" else list(best["faults"])
            size = max(1, len(items()))
            while size >= 1 and items():
                its = items()
                i = 0
                hit = False
                while i < len(its):
                    if time.time() > t_end or n > 160:
                        return
                    keep = its[:i] + its[i + size:]
                    p = dict(best)
                    p[key] = dict(keep) if key == "switches" else keep
                    if ok(p):
                        its = items()
                        hit = True
                    else:
                        i += size
                if size == 1 and not hit:
                    break
                size = size // 2 if size > 1 else (1 if hit else 0)
        ddmin("faults")
        ddmin("switches")
        fin = self.run(scn, best)
        if not any(c == cls for c, t in self.own(fin)):
            return None, "minimised plan not repeatable"
        text = next(t for c, t in self.own(fin) if c == cls)
        return {"property": self.prop, "class": cls, "text": text, "scn": scn, "plan": fin.plan.to_json(), "digest": fin.digest,
                "all": self.own(fin), "original_size": {"switches": orig[0], "faults": orig[1]}, "minimise_runs": n,
                "original_text": self.own(res)[0][1]}, ""


def main():
    ap = argparse.ArgumentParser()
    for a in ("prop", "tier", "seed", "snap", "scratch", "out"):
        ap.add_argument("--" + a)
    for a in ("shard", "nshards", "count"):
        ap.add_argument("--" + a, type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--known", default="[]")
    a = ap.parse_args()
    sys.path.insert(0, a.snap)
    warnings.filterwarnings("ignore")
    dn = os.open(os.path.join(a.scratch, "native.out"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(dn, 1)
    outf = open(a.out, "a", buffering=1)
    emit = lambda d: outf.write(json.dumps(d) + "\n")
    import re
    known = [(k, re.compile(k)) for k in json.loads(a.known)]
    ex = Explorer(a.prop, a.scratch, emit)
    if hasattr(ex.mod, "setup"):
        ex.mod.setup(a.snap, a.scratch)
    if a.replay:
        d = json.load(open(a.replay))
        r = ex.run(d["scn"], d["plan"])
        emit({"t": "replay", "digest": r.digest, "own": ex.own(r), "all": r.violations})
        return
    from . import scen
    t0 = time.time()
    t_end = t0 + a.budget
    gen, per = scen.GEN[a.prop], scen.PER.get(a.prop, 1)
    i = -1
    done = mism = 0
    for i in range(a.count):
        if (i // per) % a.nshards != a.shard:
            continue
        if time.time() > t_end:
            break
        scn = gen(a.prop, a.seed, i, a.tier)
        ts = time.time()
        res = ex.run(scn)
        done += 1
        own = ex.own(res)
        rec = {"t": "run", "i": i, "sched": getattr(res, "sched", res.digest[:16]), "stats": res.stats, "wall": round(time.time() - ts, 3),
               "scn": scn if done <= 1 else None, "other": sorted({c for c, t in res.violations if c not in ex.P["own"]}),
               "digest": res.digest[:16]}
        if hasattr(ex.mod, "sample") and done <= 1:
            rec["sample"] = ex.mod.sample(scn, res)
        emit(rec)
        if done % 20 == 5:
            r2 = ex.run(scn)
            emit({"t": "twice", "i": i, "same": r2.digest == res.digest and r2.violations == res.violations})
        kn = [k for c, t in own for k, rx in known if rx.search(t)]
        own2 = [(c, t) for c, t in own if not any(rx.search(t) for k, rx in known)]
        for k in kn:
            emit({"t": "known", "key": k, "i": i})
        if own2:
            v, why = ex.confirm(scn, res, min(time.time() + 60, t_end + 60))
            if v is not None and any(rx.search(v["text"]) for k, rx in known):
                emit({"t": "known", "key": v["text"], "i": i})
            elif v is not None:
                v["t"] = "viol"
                v["i"] = i
                emit(v)
                break
            else:
                emit({"t": "elsewhere", "i": i, "why": why, "own": own2[:3], "scn": scn, "plan": res.plan.to_json() if res.plan else None})
    emit({"t": "end", "done": done, "wall": time.time() - t0})


if __name__ == "__main__":
    main()
