"""C13: raw scenes -> stack -> change records -> yearly maps, as three jobs one after another: workload, oracle, one execution."""
import hashlib, json, os, random, shutil
import numpy as np

from . import core, export, faults, gen, scen, stack, tile
from .tile import Result

SENS = {"HLS": ("L30", "S30"), "HLS14": ("L30", "S30")}


class Stacked:
    """the observations a block must end up with, derived from the raw scenes (not from the stack)"""

    def __init__(self, case, scn):
        self.rows, self.cols, self.nbx, self.nby, self.bw, self.bh, self.blocks = (
            case.rows, case.cols, case.nbx, case.nby, case.bw, case.bh, case.blocks)
        self.exp = case.expected(scn)
        self.sd = case.dates(scn)

    def pixel_series(self, r, c, low=0, upp=0):
        b = (c // self.bw + 1, r // self.bh + 1)
        l = [(d, a[r % self.bh, c % self.bw]) for d, s, a in self.exp[b] if d >= low and (not upp or d <= upp)]
        return np.array([d for d, _ in l], int), np.array([a for _, a in l]).reshape(-1, 8).astype(np.int16)


class Case(stack.Case):
    cache = {}

    def __init__(self, scratch, tile, bad, seed, coll):
        self.tdata = tile
        t = gen.Tile(**tile)
        r = random.Random("chain-%s" % seed)
        both = SENS.get(coll, ("LC8", "LE7"))
        rows = []
        for i, (d, nm) in enumerate(t.scenes):
            a = t.data[i].copy()
            for b in t.blocks:            # scenes absent from a block: cloud or fill all over it
                if not t.present[b][i]:
                    v = a[(b[1] - 1) * t.bh:b[1] * t.bh, (b[0] - 1) * t.bw:b[0] * t.bw]
                    v[:, :, 7] = r.choice([4, 255, 2])
            a[:, :, :7][a[:, :, 7] == 255] = -9999
            rows.append((d, both[0] if nm[0] == "L" else both[1], a, None))
        if r.random() < 0.35:             # both sensors on the same day, often
            for i in range(0, len(rows) - 1):
                (d, s, a, k), (d2, s2, a2, k2) = rows[i], rows[i + 1]
                if d < d2 <= d + 20 and r.random() < 0.6:
                    s2 = both[1] if s == both[0] else both[0]
                    if (i + 2 == len(rows) or rows[i + 2][0] > d2) and (i == 0 or rows[i - 1][0] < d):
                        rows[i + 1] = (d, s2, a2, k2)
        for k in bad:                     # damaged scenes among them
            d = int(t.sd[0]) + r.randrange(int(t.sd[-1] - t.sd[0]))
            s = r.choice(both)
            if all((d, s) != x[:2] for x in rows):
                rows.append((d, s, t.data[r.randrange(len(t.data))].copy(), k))
        r.shuffle(rows)
        self.usual = r.random() < 0.5     # every scene lies on the path of the tile's first pixel
        super().__init__(scratch, seed, t.rows, t.cols, t.nbx, t.nby, coll, 0, tile=rows)
        from osgeo import gdal
        ds = gdal.GetDriverByName("GTiff").Create(self.root + "/ref.tif", self.cols, self.rows, 1, gdal.GDT_Int16)
        ds.SetGeoTransform(self.geo)
        ds.SetProjection(self.proj)
        ds.FlushCache()
        del ds
        ds = gdal.Open(self.root + "/ref.tif")
        self.refproj = ds.GetProjection()
        del ds
        self.views = {}

    def write_cfg(self, scn):
        with open(self.root + "/cfg.yaml", "w") as f:
            f.write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n"
                    "ALGORITHMINFO:\n  conse: %d\n  CM_OUTPUT_INTERVAL: %d\n  probability_threshold: %s\n"
                    % (self.rows, self.cols, self.nbx, self.nby, scn["conse"], scn["interval"], scn["prob"]))

    def view(self, scn):
        """the detector on the raw observations of every pixel, ready to be rendered as maps"""
        k = json.dumps([scn[x] for x in ("method", "conse", "prob", "b_c2", "interval", "clear", "single")] + [scn.get("low"), scn.get("upp")])
        if k not in self.views:
            T = tile.Case.__new__(tile.Case)
            T.tile, T.memo, T.recs = Stacked(self, scn), {}, {}
            a = (scn["conse"], scn["prob"], scn["b_c2"], 0, 0)
            v = Maps()
            v.rows, v.cols, v.method, v.geo, v.proj, v.px = self.rows, self.cols, scn["method"], self.geo, self.refproj, {}
            if scn["method"] == "OBCOLD":
                pp = T.obcold(*a, scn["interval"], None, None)["ob"]
            else:
                pp = T.per_pixel("COLD" if scn["method"] == "COLD" else "SCCD", *a)
            for p, rec in pp.items():
                if rec is None:
                    continue
                if scn["method"] == "SCCDOFFLINE":
                    rec = T.recs[p]
                v.px[((p - 1) // self.cols, (p - 1) % self.cols)] = rec
            self.views[k] = v
        return self.views[k]


class Maps:
    expected = export.Case.expected


def run(scn, scratch, plan=None, log=None):
    case = Case.get(scratch, scn["data"])
    scn = scen.bounds(scn, [s["date"] for s in case.scenes])
    for d in ("out", "res", "maps"):
        shutil.rmtree(case.root + "/" + d, ignore_errors=True)
    os.mkdir(case.root + "/maps")
    case.write_cfg(scn)
    out = Result()
    r = case.root
    shared, dig, sched = core.Plan(), hashlib.sha256(), hashlib.sha256()
    tot = {}
    step = 0

    def phase(name, nr, entries, cfg, inc0, att=0, mpi=False):
        nonlocal step
        cfg = dict(cfg, skew={int(k): v for k, v in cfg.get("skew", {}).items()})
        cfg.setdefault("passthrough", [])
        fg = None
        if scn["faults"].get(name) and plan is None:
            fg = phase.fg.setdefault(name, faults.FaultGen("%s-%s" % (scn["seed"], name), scn["faults"][name]))
        s = core.Sim(r, "%s-%s.%d" % (scn["seed"], name, att), entries, cfg=cfg, policy=scn["policy"][name], faultgen=fg, plan=plan, mpi=mpi,
                     restart_failed=not mpi, inc0=inc0, step0=step, log=log)
        s.plan = shared
        s.max_steps += step
        s.run()
        tot["steps_" + name] = tot.get("steps_" + name, 0) + s.step - step
        step = s.step + 1
        dig.update(s.trace.digest())
        sched.update(s.sched_hash.digest())
        for k, v in s.counts.items():
            tot[k] = tot.get(k, 0) + v
        tot["sim_s"] = tot.get("sim_s", 0) + s.now
        for v in s.violations:
            out.violations.append((v[0], "%s: %s" % (name, v[1])))
        return s
    phase.fg = {}

    def failed(name, s):
        for k, n in sorted(s.nodes.items()):
            if n.exits and n.exits[-1][1] not in (0, -9):
                out.violations.append(("fail", "%s: worker %d ended with an error: %s" % (name, k, n.exits[-1][2])))
                return
        if not out.violations:
            out.violations.append(("fail", "%s does not end" % name))

    ok = False
    n = scn["n_cores"]
    s = phase("stack", n["stack"], {k: stack.Entry(stack.cli(case, dict(scn, part=True, n_cores=n["stack"]), k)) for k in range(1, n["stack"] + 1)},
              scn["sim"]["stack"], 0)
    if s.all_done():
        a = lambda k: ["--rank", str(k), "--n_cores", str(n["tile"]), "--stack_path", r + "/out", "--result_path", r + "/res",
                       "--yaml_path", r + "/cfg.yaml", "--method", scn["method"]] + (["--b_c2"] if scn["b_c2"] else [])
        s = phase("tile", n["tile"], {k: tile.Entry(a(k)) for k in range(1, n["tile"] + 1)}, scn["sim"]["tile"], 100)
        if s.all_done():
            a = ["--reccg_path", r + "/res", "--reference_path", r + "/ref.tif", "--out_path", r + "/maps", "--method", scn["method"],
                 "--yaml_path", r + "/cfg.yaml", "--year_lowbound", str(scn["lo"]), "--year_uppbound", str(scn["hi"])]
            for att in range(14):
                s = phase("export", n["export"], {k: export.Entry(a) for k in range(n["export"])},
                          dict(scn["sim"]["export"], mpi_rank_base=0, mpi_size=n["export"]), 200 + att, att, True)
                ok = s.all_done()
                if ok or not (s.kills or s.ioerrs or s.counts.get("short_write")) or s.violations:
                    break
                tot["job_restart"] = tot.get("job_restart", 0) + 1
            if not ok:
                failed("export", s)
        else:
            failed("tile", s)
    else:
        failed("stack", s)
    out.plan = shared
    out.stats.update(tot)
    out.stats["steps"] = step
    out.stats["switches"] = len(shared.switches)
    out.sched = sched.hexdigest()[:16]
    if ok:
        v = case.view(scn)
        for c, t in export.check(v, {"lo": scn["lo"], "hi": scn["hi"]}, r + "/maps"):
            out.violations.append((c, t))
        out.stats["pixels"] = case.rows * case.cols
        out.stats["scenes"] = len(case.scenes)
        out.stats["breaks"] = sum(int((m > 0).sum()) for m in v.expected(scn["lo"], scn["hi"], None, [])[0].values())
    if case.fingerprint() != case.inputs:
        out.violations.append(("input", "the chain changed its source scenes"))
    for s in case.scenes:
        if s["bad"]:
            out.stats["fault_scene_" + s["bad"]] = out.stats.get("fault_scene_" + s["bad"], 0) + 1
    dig.update(repr(sorted(set(out.violations))).encode())
    out.digest = dig.hexdigest()
    return out


def setup(snap, scratch):
    stack.setup(snap, scratch)
    tile.setup(snap, scratch)
    export.setup(snap, scratch)
