"""Seeded scenario generators: one (property, base seed, index) -> one scenario."""
import datetime as dt, random


def policy(r, cores):
    k = r.choice(["uniform", "uniform", "prio", "prio", "starve", "firstlast", "mutswitch", "mutswitch"])
    ranks = sorted(r.sample(range(1, cores + 1), r.randrange(1, max(2, cores // 2 + 1))))
    p = {"uniform": r.choice([0.02, 0.1, 0.3, 1.0]), "prio": r.choice([0.01, 0.05, 0.2]), "mutswitch": r.choice([0.2, 0.6])}.get(k, 0)
    s = {"kind": k, "p": p, "ranks": ranks}
    if r.random() < 0.35:
        s["race"] = {"p": r.choice([0.02, 0.1, 0.4]), "max": r.choice([3, 8, 20]), "after": int(10 ** (r.random() * 3.3)),
                     "kinds": r.choice([["open_r", "gdal_r"], ["stat"], ["list"], ["unlink"], ["rename", "mkdir"],
                                        ["open_r", "gdal_r", "unlink", "list"], ["open_r", "stat", "list", "unlink", "open_w", "rename", "mkdir"]])}
    return s


def simcfg(r, cores):
    s = {"list_order": r.choice(["sorted", "reverse", "shuffle", "rank", "fixed"]), "order_seed": r.randrange(1000),
         "bufsize": r.choice([64, 512, 512, 8192])}
    if r.random() < 0.3:
        s["skew"] = {str(k): r.choice([0, -3600, 86400 * 30, 5]) for k in range(1, cores + 1)}
    if r.random() < 0.1:
        s["read_yield"] = True
    return s


def tile_data(r, tier, wide=False):
    big = tier == "thorough" and r.random() < 0.3
    while True:
        nbx, nby = r.choice([1, 1, 2, 2, 3, 4]), r.choice([1, 1, 2, 2, 3, 4])
        bw, bh = r.choice([1, 2, 2, 3, 4, 5]), r.choice([1, 2, 2, 3, 4, 5])
        n = nbx * nby * bw * bh
        if 2 <= n <= (160 if big else 64):
            break
    return {"seed": r.randrange(10 ** 6), "rows": nby * bh, "cols": nbx * bw, "nbx": nbx, "nby": nby,
            "years": r.choice([2.6, 3.0, 3.5, 4.2]), "step": r.choice([10, 14, 18]),
            "empty": r.choice([0, 0, 1, 2]) if nbx * nby > 1 else 0}


def fault_spec(r, kinds):
    s = {}
    if "kill" in kinds:
        s.update(kill=r.choice([0.003, 0.01, 0.03, 0.1]), max_kills=r.choice([1, 1, 2, 3, 5]), kill_nonmut=r.choice([0.0, 0.15, 1.0]),
                 kill_exit=r.choice([0.0, 0.1, 0.5]))
    if "err" in kinds:
        s.update(werr=r.choice([0.002, 0.01, 0.05]), rerr=r.choice([0.0, 0.002, 0.01]), max_errs=r.choice([1, 1, 2, 3]))
    if "short" in kinds:
        s.update(short=r.choice([0.01, 0.1]), max_shorts=r.choice([1, 5]))
    if "stall" in kinds:
        s.update(stall=r.choice([0.001, 0.01, 0.05]), max_stalls=r.choice([1, 2, 4]))
    return s


FOCUS = {"COLD": [["record_change", "finished"], ["finished"], None], "SCCDOFFLINE": [["record_change", "finished"], ["finished"], None],
         "OBCOLD": [["CM_"], ["cm_maps"], ["OBIA"], ["obcold/"], ["finished"], ["record_change"], None],
         "SEED": [["feature_maps"], ["rf.model"], ["yearlyclass"], ["tmp_feature"], ["tmp_step"], None]}


def tile(prop, seed, i, tier):
    per = 6
    g = random.Random("%s-%s-g%d" % (prop, seed, i // per))
    r = random.Random("%s-%s-%d" % (prop, seed, i))
    d = tile_data(g, tier)
    if prop == "C01":
        method = g.choice(["COLD", "COLD", "SCCDOFFLINE"])
    elif prop in ("C02", "C03"):
        method = g.choice(["COLD", "SCCDOFFLINE", "OBCOLD", "OBCOLD"])
    else:
        method = "OBCOLD"
    seedmap = method == "OBCOLD" and (prop == "C06" or (prop != "C04" and g.random() < 0.3) or (prop == "C04" and g.random() < 0.2))
    start = dt.date(2000, 1, 1).toordinal()
    span = int(d["years"] * 365)
    s = {"kind": "tile", "seed": "%s-%s-%d" % (prop, seed, i), "data": d, "method": method, "conse": g.choice([6, 6, 4, 8]),
         "prob": g.choice([0.99, 0.99, 0.95]), "interval": g.choice([45, 60, 90, 180]) if method == "OBCOLD" else 32,
         "b_c2": g.random() < 0.3}
    if seedmap:
        s["seedmap"] = True
        s["seedyear"] = g.choice([2000, 2001])
    if g.random() < 0.35 and not seedmap:
        lo = start + g.randrange(0, span // 3)
        s["low"] = dt.date.fromordinal(lo).isoformat()
    if g.random() < 0.35 and not seedmap:
        s["upp"] = dt.date.fromordinal(start + g.randrange(span // 2, span + 30)).isoformat()
    if g.random() < 0.3 and not seedmap:
        s["at"] = edges(g)
    if g.random() < 0.04 and not seedmap:
        s["low"] = dt.date.fromordinal(start + span + 400).isoformat()
        s.pop("upp", None)
        s.pop("at", None)
    if seedmap:
        k = g.random()
        if k < 0.3:
            d["july"] = True
            y = g.choice([2000, 2001])
            if g.random() < 0.6:
                s["low"] = "%d-07-%02d" % (y, g.choice([1, 1, 2]))
            if g.random() < 0.6 or not s.get("low"):
                s["upp"] = "%d-%s" % (y + 1, g.choice(["07-01", "07-01", "06-30", "07-02"]))
        elif k < 0.5:
            s["at"] = edges(g)
    if method == "OBCOLD" and not s.get("low") and g.random() < (0.5 if prop == "C04" else 0.15):
        # an earlier job finished (some of) the blocks: the change magnitudes it left are made up
        if g.random() < 0.6:
            d.update(years=2.6, step=18)
            while True:
                nbx, nby, bw, bh = g.choice([1, 2, 3]), g.choice([1, 2, 3, 4]), g.choice([3, 5, 8, 12, 16]), g.choice([3, 5, 8, 12, 18])
                if 50 <= nbx * nby * bw * bh <= (900 if tier == "thorough" else 580):
                    break
            d.update(rows=nby * bh, cols=nbx * bw, nbx=nbx, nby=nby, empty=g.choice([0, 0, 0, 1]) if nbx * nby > 1 else 0)
        nb = d["nbx"] * d["nby"]
        s["made"] = {"seed": g.randrange(10 ** 6), "blocks": list(range(nb)) if g.random() < 0.7 else sorted(g.sample(range(nb), g.randrange(1, nb + 1)))}
        if prop == "C04":
            s["made"]["seed"] += (i % per) // 2
        s.pop("at", None)
        s.pop("upp", None)
    cores = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
    if r.random() < 0.12:
        cores = r.choice([15, 16, 17, 20])
    s["n_cores"] = cores
    s["policy"] = policy(r, cores)
    s["sim"] = simcfg(r, cores)
    if prop in ("C01", "C04"):
        s["faults"] = fault_spec(r, ["stall"]) if r.random() < 0.4 else {}
    elif prop == "C02":
        s["faults"] = fault_spec(r, r.choice([["err"], ["kill"], ["kill", "err"], ["short", "err"], ["kill", "stall"], ["err", "kill", "short", "stall"]]))
    elif prop == "C03":
        s["faults"] = fault_spec(r, r.choice([["kill"], ["kill"], ["kill", "stall"]]))
        s["faults"]["max_kills"] = r.choice([1, 1, 2, 3, 6, 10])
    elif prop == "C05":
        s["faults"] = fault_spec(r, r.choice([[], ["stall"], ["kill"], ["err"], ["kill", "err", "stall", "short"], ["kill", "stall"]]))
    elif prop == "C06":
        s["faults"] = fault_spec(r, r.choice([[], [], ["kill"], ["stall"], ["kill", "stall"], ["err"]]))
    f = r.choice(FOCUS["SEED" if seedmap and r.random() < 0.6 else method])
    if s["faults"] and f:
        s["faults"]["focus"] = f
    return s


def native(prop, seed, i, tier):
    from . import native as nv
    r = random.Random("%s-%s-%d" % (prop, seed, i))
    s = {"kind": {"C10": "nrt", "C11": "alloc", "C12": "iso"}[prop], "seed": "%s-%s-%d" % (prop, seed, i), "op": nv.gen_op(r, tier == "quick")}
    if prop == "C10":
        o = s["op"]
        o["fn"] = "chain"
        o["conse"] = r.choice([6, 6, 6, 5, 4, 3, 8])
        o.pop("gap", None)
        o["frac"] = r.choice([0.05, 0.3, 0.5, 0.7, 0.85])
        o["cut"] = r.randrange(10 ** 6)
        if r.random() < 0.3:
            o["identify"] = r.choice([2, 2, 3, 4, 5, 6])
        s["faults"] = {"rate": r.choice([0.05, 0.2, 0.5])}
        if r.random() < 0.15:
            o["gate"] = r.choice([5.0, 13.3, 20.5])
        if r.random() < 0.15:       # a greening near the end of the series, delivered in small batches
            o["px"][1] = "green"
            o["frac"] = r.choice([0.7, 0.85])
            o["identify"] = r.choice([2, 3, 4, 6])
        elif r.random() < 0.12:     # disturbances that pass, reported early
            o["px"][1] = "passing"
            o["frac"] = r.choice([0.5, 0.7])
            o["identify"] = r.choice([1, 2, 2, 3])
            o["thresholds"] = [r.choice([1508.6, 1000, 400]), r.choice([-200, -200, -400]), r.choice([4500, 9000, 17000])]
        elif r.random() < 0.06:     # long, with the largest errors there can be
            o["px"][1:4] = ["rough", r.choice([5, 8]), 8]
            o["frac"] = r.choice([0.3, 0.5])
        if r.random() < 0.2:
            o["predict"] = r.choice([3.0, 15.086, 40.0])
        if "identify" in o and "thresholds" not in o and r.random() < 0.6:
            o["thresholds"] = [r.choice([1508.6, 1000, 400]), r.choice([-200, -200, -100, -400]), r.choice([4500, 9000, 17000])]
    elif prop == "C11":
        s["op2"] = nv.gen_op(r, True)
        s["faults"] = {"trials": 12}
    else:
        s["others"] = [nv.gen_op(r, True) for _ in range(3)]
        s["faults"] = {"perturbations": 14}
    return s


def export(prop, seed, i, tier):
    g = random.Random("%s-%s-g%d" % (prop, seed, i // 3))
    r = random.Random("%s-%s-%d" % (prop, seed, i))
    while True:
        nbx, nby, bw, bh = (g.choice([1, 2, 2, 3, 4, 5]) for _ in range(4))
        if 2 <= nbx * nby * bw * bh <= 120:
            break
    method = g.choice(["COLD", "COLD", "COLD", "OBCOLD", "OBCOLD", "OBCOLD", "SCCDOFFLINE", "SCCDOFFLINE"])
    d = {"seed": g.randrange(10 ** 6), "rows": nby * bh, "cols": nbx * bw, "nbx": nbx, "nby": nby, "method": method,
         "span": g.choice([4, 8, 14]), "missing": g.choice([0, 0, 0, 1, 2]), "empty": g.choice([0, 0, 0, 1, 2])}
    y0 = 1984 + random.Random("ex-%s" % d["seed"]).randrange(0, 15)
    lo = y0 + g.choice([-2, 0, 1, 3])
    s = {"kind": "export", "seed": "%s-%s-%d" % (prop, seed, i), "data": d, "lo": lo, "hi": lo + g.choice([0, 1, 3, 6])}
    if method != "SCCDOFFLINE" and g.random() < 0.4:
        from .export import COEFS
        s["coefs"] = g.sample(COEFS, g.choice([1, 1, 2, 3]))
        if g.random() < 0.8:
            s["bands"] = sorted(g.sample(range(7), g.choice([1, 2, 3])))
        s["hi"] = min(s["hi"], lo + (3 if "bands" in s else 1))
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
    s["n_proc"] = n
    s["policy"] = policy(r, n)
    s["policy"]["ranks"] = [k - 1 for k in s["policy"]["ranks"]]
    s["sim"] = simcfg(r, n)
    s["faults"] = fault_spec(r, r.choice([[], [], ["stall"], ["kill"], ["kill"], ["err"], ["kill", "err", "stall", "short"]]))
    f = r.choice([None, None, ["tmp_map"], ["break_map"], ["tmp_coef", "coefs"]])
    if s["faults"] and f:
        s["faults"]["focus"] = f
    return s


def stack(prop, seed, i, tier):
    from . import stack as st
    g = random.Random("%s-%s-g%d" % (prop, seed, i // 6))
    r = random.Random("%s-%s-%d" % (prop, seed, i))
    coll = g.choice(["HLS", "HLS", "HLS14", "ARD", "ARD", "ARD-C2", "ARD-C2", "C2"])
    while True:
        nbx, nby, bw, bh = (g.choice([1, 2, 2, 3, 4, 5]) for _ in range(4))
        if 2 <= nbx * nby * bw * bh <= 100 and nbx * nby <= 12:
            break
    n = g.choice([1, 2, 3, 4, 5, 6, 8, 10] + ([16] if tier == "thorough" else []))
    bad = []
    part = g.random() < 0.85
    if prop == "C08" and g.random() < 0.75:
        q = g.choice([0.2, 0.4, 0.8])
        kinds = [k for k in st.BAD[coll] if part or k != "small"]
        bad = [g.choice(kinds) if g.random() < q else None for _ in range(n)]
        if all(bad):
            bad[g.randrange(n)] = None
    elif prop == "C07" and g.random() < 0.15:
        bad = [g.choice([None, "allfill"]) for _ in range(n)]
    s = {"kind": "stack", "seed": "%s-%s-%d" % (prop, seed, i),
         "data": {"seed": g.randrange(10 ** 6), "rows": nby * bh, "cols": nbx * bw, "nbx": nbx, "nby": nby, "coll": coll, "n": n, "bad": bad},
         "clear": g.choice([0, 0, 0.0001, 0.2, 0.5]), "single": g.random() < 0.6, "hpc": g.random() < 0.75, "part": part}
    if coll.startswith("ARD") and not s["hpc"]:
        s["single"] = False
    y = {0: 1999, 1: 2004, 2: 2015}[g.randrange(3)]
    if g.random() < 0.3:
        s["low"] = dt.date.fromordinal(dt.date(y, 1, 1).toordinal() + g.randrange(0, 600)).isoformat()
    if g.random() < 0.3:
        s["upp"] = dt.date.fromordinal(dt.date(y, 1, 1).toordinal() + g.randrange(100, 800)).isoformat()
    if g.random() < 0.35:
        s["at"] = edges(g)
    cores = r.choice([1, 2, 2, 3, 3, 4, 5, 7, 11])
    s["n_cores"] = cores
    s["policy"] = policy(r, cores)
    s["sim"] = simcfg(r, cores)
    fine = [k for k in range(n) if not (bad and bad[k])]
    if r.random() < 0.25 and n > 1 and fine:     # scenes arrive after the job was run once
        few = {r.choice(fine)} | {k for k in range(n) if r.random() < 0.5}
        s["grown"] = {"first": sorted(few), "n_cores": r.choice([cores, cores, 1, 2, 4])}
    if prop == "C07":
        s["faults"] = fault_spec(r, ["stall"]) if r.random() < 0.4 else {}
    else:
        k = [[], ["kill"], ["kill"], ["kill", "stall"], ["err"], ["kill", "err", "short", "stall"]]
        s["faults"] = fault_spec(r, r.choice(k))
        f = r.choice([None, None, [".npy"], ["starting_last"], ["singlepath", "starting_last"], ["tmp"]])
        if s["faults"] and f:
            s["faults"]["focus"] = f
        if coll not in ("HLS", "HLS14"):       # an archive that cannot be unpacked is a bad scene: no storage errors there
            s["faults"]["errpaths"] = ["out/block", "out/starting_last", "out/rank"]
    return s


def edges(g):
    """date bounds at (or next to) an acquisition day: [position among the days, offset in days]"""
    return {"low": [round(g.random() * 0.5, 3), g.choice([0, 0, 0, 1, -1])] if g.random() < 0.6 else None,
            "upp": [round(0.5 + g.random() * 0.5, 3), g.choice([0, 0, 0, 1, -1])] if g.random() < 0.7 else None}


def bounds(scn, days):
    if not scn.get("at"):
        return scn
    days = sorted({int(d) for d in days})
    scn = dict(scn)
    for k, e in scn.pop("at").items():
        if e is not None and days:
            scn[k] = dt.date.fromordinal(days[min(len(days) - 1, int(e[0] * len(days)))] + e[1]).isoformat()
    if scn.get("low") and scn.get("upp") and scn["low"] > scn["upp"]:
        scn.pop("low")
    return scn


def chain(prop, seed, i, tier):
    from . import stack as st
    g = random.Random("%s-%s-g%d" % (prop, seed, i // 8))
    r = random.Random("%s-%s-%d" % (prop, seed, i))
    coll = g.choice(["HLS", "HLS", "HLS14", "ARD", "ARD-C2", "C2"])
    while True:
        nbx, nby, bw, bh = (g.choice([1, 2, 2, 3, 4]) for _ in range(4))
        if 2 <= nbx * nby * bw * bh <= (64 if tier == "thorough" else 36):
            break
    t = {"seed": g.randrange(10 ** 6), "rows": nby * bh, "cols": nbx * bw, "nbx": nbx, "nby": nby, "years": g.choice([2.6, 3.0, 3.5]),
         "step": g.choice([14, 18]), "start_year": g.choice([1999, 2003, 2015]), "empty": g.choice([0, 0, 1]) if nbx * nby > 1 else 0}
    kinds = [k for k in st.BAD[coll] if k != "small"]
    d = {"tile": t, "bad": [g.choice(kinds) for _ in range(g.choice([0, 0, 2, 5]))], "seed": g.randrange(10 ** 6), "coll": coll}
    start = dt.date(t["start_year"], 1, 1).toordinal()
    span = int(t["years"] * 365)
    method = g.choice(["COLD", "COLD", "SCCDOFFLINE", "OBCOLD"])
    s = {"kind": "chain", "seed": "%s-%s-%d" % (prop, seed, i), "data": d, "method": method, "conse": g.choice([6, 6, 4]),
         "prob": g.choice([0.99, 0.95]), "interval": g.choice([90, 180]), "b_c2": g.random() < 0.3,
         "part": True, "clear": g.choice([0, 0, 0, 0.2]), "single": g.random() < 0.5, "hpc": True}
    if g.random() < 0.2:
        s["low"] = dt.date.fromordinal(start + g.randrange(0, span // 3)).isoformat()
    if g.random() < 0.2:
        s["upp"] = dt.date.fromordinal(start + g.randrange(span // 2, span + 30)).isoformat()
    if g.random() < 0.2:
        s["at"] = edges(g)
    s["lo"] = t["start_year"] + g.choice([-1, 0, 0, 1])
    s["hi"] = t["start_year"] + g.choice([2, 3, 4])
    s["n_cores"], s["policy"], s["sim"], s["faults"] = {}, {}, {}, {}
    for ph in ("stack", "tile", "export"):
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        s["n_cores"][ph] = n
        s["policy"][ph] = policy(r, n)
        if ph == "export":
            s["policy"][ph]["ranks"] = [k - 1 for k in s["policy"][ph]["ranks"]]
        s["sim"][ph] = simcfg(r, n)
        f = fault_spec(r, r.choice([[], [], ["kill"], ["kill", "stall"], ["err", "kill"], ["err", "short"]]))
        if f:
            if ph == "stack":
                for k in ("kill", "werr"):
                    if k in f:
                        f[k] /= 4
                if coll not in ("HLS", "HLS14"):
                    f["errpaths"] = ["out/block", "out/starting_last", "out/rank"]
            s["faults"][ph] = f
    return s


GEN = {p: tile for p in ("C01", "C02", "C03", "C04", "C05", "C06")}
GEN.update(C13=chain, C07=stack, C08=stack, C09=export, C10=native, C11=native, C12=native)
PER = {p: 8 if GEN[p] is chain else 6 for p in GEN if GEN[p] in (tile, export, stack, chain)}
COUNT = {}
