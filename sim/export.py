"""C09: exporting maps from change records with several MPI processes: workload, oracle, one execution."""
import datetime as dt, hashlib, os, pickle, random, shutil
import numpy as np

from . import core, gen, ref, faults
from .tile import Result, finish

COEFS = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "cv", "rmse"]


def day(y, m=1, d=1):
    return dt.date(y, m, d).toordinal()


class Case:
    """synthetic record files of one tile, covering everything the detectors can report"""
    cache = {}

    @classmethod
    def get(cls, scratch, data):
        k = repr(sorted(data.items()))
        if k not in cls.cache:
            if len(cls.cache) >= 3:
                old = cls.cache.pop(next(iter(cls.cache)))
                shutil.rmtree(os.path.dirname(old.root), ignore_errors=True)
            cls.cache[k] = cls(scratch, **data)
        return cls.cache[k]

    def __init__(self, scratch, seed, rows, cols, nbx, nby, method, span, missing=0, empty=0):
        from pycold.common import reccg_dt, sccd_dt, nrtmodel_dt, nrtqueue_dt
        self.rows, self.cols, self.nbx, self.nby, self.method = rows, cols, nbx, nby, method
        self.bw, self.bh = cols // nbx, rows // nby
        r = random.Random("ex-%s" % seed)
        g = np.random.default_rng(r.randrange(2 ** 31))
        self.root = core.fresh_root(scratch)
        os.mkdir(self.root + "/cwd")
        d = self.root + "/rec" + ("/obcold" if method == "OBCOLD" else "")
        os.makedirs(d)
        blocks = [(x, y) for y in range(1, nby + 1) for x in range(1, nbx + 1)]
        none = set(r.sample(blocks, min(len(blocks), missing)))
        void = set(r.sample(blocks, min(len(blocks), empty)))
        y0 = 1984 + r.randrange(15)
        self.years = (y0, y0 + span)
        self.last = None
        self.px = {}            # 0-based (row, col) -> records in time order
        for b in blocks:
            x, y = b
            items = []
            for i in range((y - 1) * self.bh, y * self.bh):
                for j in range((x - 1) * self.bw, x * self.bw):
                    if b in none or b in void:
                        continue
                    rec = self.pixel(r, g, cols * i + j + 1, reccg_dt if method != "SCCDOFFLINE" else sccd_dt)
                    if len(rec) or method == "SCCDOFFLINE":
                        self.px[(i, j)] = rec
                        items.append((cols * i + j + 1, rec))
            nm = "%s/record_change_x%d_y%d_%s.npy" % (d, x, y, {"COLD": "cold", "OBCOLD": "obcold", "SCCDOFFLINE": "sccd"}[method])
            if b in none:
                continue
            with open(nm, "wb") as f:
                if method == "SCCDOFFLINE":
                    for pos, rec in items:
                        q = np.zeros(r.choice([0, 0, 5]), nrtqueue_dt)
                        m = np.zeros(r.choice([0, 1]), nrtmodel_dt)
                        pickle.dump([pos, rec.tolist(), g.integers(0, 200, 6).astype(np.short), r.choice([1, 3, 12]),
                                     m.tolist() if len(m) else m, q.tolist() if len(q) else q], f)
                else:
                    np.save(f, np.hstack([v for p, v in items]) if items else np.zeros(0, reccg_dt))
        self.last = None
        if r.random() < 0.4:          # results of another method beside them
            for (x, y) in blocks:
                if r.random() < 0.6:
                    a = [self.pixel(r, g, cols * i + j + 1, reccg_dt) for i in range((y - 1) * self.bh, y * self.bh)
                         for j in range((x - 1) * self.bw, x * self.bw)]
                    if method == "COLD":
                        os.makedirs(self.root + "/rec/obcold", exist_ok=True)
                    np.save(self.root + "/rec/" + ("obcold/" if method == "COLD" else "") + "record_change_x%d_y%d_%s.npy" % (
                        x, y, "obcold" if method == "COLD" else "cold"), np.hstack(a))
        from osgeo import gdal, osr
        self.geo = (r.randrange(100000, 900000), r.choice([30.0, 30.0, 10.0]), 0.0, r.randrange(3000000, 5000000), 0.0, -30.0)
        ds = gdal.GetDriverByName("GTiff").Create(self.root + "/ref.tif", cols, rows, 1, gdal.GDT_Int16)
        ds.SetGeoTransform(self.geo)
        sr = osr.SpatialReference()
        sr.ImportFromWkt(WKT)
        ds.SetProjection(sr.ExportToWkt())
        ds.FlushCache()
        del ds
        ds = gdal.Open(self.root + "/ref.tif")
        self.proj = ds.GetProjection()
        del ds
        with open(self.root + "/cfg.yaml", "w") as f:
            f.write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n" % (rows, cols, nbx, nby))
        self.inputs = self.fingerprint()

    def fingerprint(self):
        out = {}
        for dp, dn, fn in os.walk(self.root + "/rec"):
            for f in fn:
                out[f] = hashlib.sha1(open(os.path.join(dp, f), "rb").read()).hexdigest()
        for f in ("ref.tif", "cfg.yaml"):
            out[f] = hashlib.sha1(open(self.root + "/" + f, "rb").read()).hexdigest()
        out["files"] = tuple(sorted(x for x in os.listdir(self.root) if x not in ("out", "cwd")))
        return out

    def pixel(self, r, g, pos, dtp):
        sccd = "t_end" not in dtp.names
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        a = np.zeros(n, dtp)
        t = day(self.years[0], 1, 1) + r.randrange(-400, 900)
        for k in range(n):
            ln = r.choice([60, 200, 500, 900, 1500])
            e = t + r.randrange(ln // 2, ln)
            br = e + r.randrange(1, 60)
            if r.random() < 0.15:
                br = day(dt.date.fromordinal(e).year + 1) - r.choice([0, 1])     # around New Year
            if k and r.random() < 0.15:
                br = int(a[k - 1]["t_break"]) + r.choice([1825, 1826, 1827])      # around five years after the last break
            c = a[k]
            c["t_start"], c["num_obs"] = t, r.randrange(12, 400)
            nb = c["coefs"].shape[0]
            c["coefs"] = (g.normal(0, 1, c["coefs"].shape) * np.array([2000, 500, 200, 200, 90, 90, 40, 40])[:c["coefs"].shape[1]])
            if r.random() < 0.05:
                c["coefs"][r.randrange(nb), r.randrange(2)] = np.nan
            if r.random() < 0.3:
                c["coefs"][2:5, 1] = np.abs(c["coefs"][2:5, 1]) * np.array([-1, 1, -1])
                if r.random() < 0.5:
                    c["coefs"][2:5, 1] *= 3
            c["rmse"] = g.uniform(10, 200, nb)
            c["magnitude"] = g.normal(0, r.choice([150, 400, 900]), nb)
            if r.random() < 0.3:
                c["magnitude"][2:5] = [-300, 300, -300]
            if r.random() < 0.15:                                                 # on a threshold
                th = r.choice([200, 250])
                c["magnitude"][r.choice([2, 4])] = th
                if r.random() < 0.5:
                    c["magnitude"][3] = -th
            if r.random() < 0.1:
                c["magnitude"][r.randrange(1, nb)] = 0
            if k and r.random() < 0.4:                                            # the last change undone, or repeated
                c["magnitude"] = a[k - 1]["magnitude"] * r.choice([-1, -1, 1])
                if r.random() < 0.5:
                    c["magnitude"][r.randrange(1, nb)] *= -1
            last = k == n - 1
            if last and r.random() < 0.75:
                c["t_break"] = 0
                if not sccd:
                    c["change_prob"] = 0
                    if r.random() < 0.3:
                        c["t_break"], c["change_prob"] = br, r.choice([16, 50, 83, 99])
            else:
                c["t_break"] = br
                if not sccd:
                    c["change_prob"] = 100
            if not sccd:
                c["t_end"], c["pos"], c["category"] = e, pos, r.choice([4, 6, 8])
            if not k and self.last is not None and self.last["t_break"] and r.random() < 0.35:
                # as if it went on from the history of the pixel before
                c["magnitude"] = -self.last["magnitude"]
                if c["t_break"]:
                    br = c["t_break"] = int(self.last["t_break"]) + r.randrange(1, 1500)
                    c["t_start"] = min(int(c["t_start"]), br - 60)
                    if not sccd:
                        c["t_end"] = br - 8
            t = br + r.choice([0, 0, 8, 40, 300])
            if r.random() < 0.2:                                                  # the next segment starts around 1 July
                t2 = day(dt.date.fromordinal(t).year, 7, 1) + r.choice([-1, 0, 1])
                t = t2 if t2 >= t else t
        if n:
            self.last = a[-1].copy()
        return a

    # ------------------------------------------------------------------ oracle
    def expected(self, lo, hi, coefs, bands):
        R, C = self.rows, self.cols
        ys = range(lo, hi + 1)
        br = {y: np.full((R, C), -9999, np.int64) for y in ys}
        co = {(y, b, c): np.full((R, C), -9999.0) for y in ys for b in bands for c in coefs} if coefs else {}
        tol = {}
        for (i, j), rec in self.px.items():
            kind = 0
            for k, c in enumerate(rec):
                tb = int(c["t_break"])
                if tb == 0 or ("change_prob" in rec.dtype.names and c["change_prob"] != 100):
                    continue
                y = dt.date.fromordinal(tb).year
                kind = ref.category(self.method, rec, k, kind)
                if lo <= y <= hi:
                    br[y][i, j] = 1000 * kind + tb - day(y) + 1
            if not coefs:
                continue
            for y in ys:
                d = day(y, 7, 1)
                for b in bands:
                    for n in coefs:
                        v, t = ref.coefficient(rec, y, d, b, n)
                        if v is not None:
                            co[(y, b, n)][i, j] = v
                            tol[(y, b, n, i, j)] = t
        rc, fs = np.zeros((R, C), np.int64), np.zeros((R, C), np.int64)
        for y in ys:
            m = br[y] // 1000 == 1
            rc[m] = y
            fs[m & (fs == 0)] = y
        return br, co, tol, rc, fs


WKT = ('PROJCS["Albers",GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378140,298.256999999996]],PRIMEM["Greenwich",0],'
       'UNIT["degree",0.0174532925199433]],PROJECTION["Albers_Conic_Equal_Area"],PARAMETER["standard_parallel_1",29.5],'
       'PARAMETER["standard_parallel_2",45.5],PARAMETER["latitude_of_center",23],PARAMETER["longitude_of_center",-96],'
       'PARAMETER["false_easting",0],PARAMETER["false_northing",0],UNIT["metre",1]]')


class Entry:
    def __init__(self, args):
        self.args = args

    def __call__(self):
        from pycold.imagetool import export_change_map
        export_change_map.main.main(self.args, prog_name="export_change_map", standalone_mode=False)


def cli(case, scn):
    r = case.root
    a = ["--reccg_path", r + "/rec", "--reference_path", r + "/ref.tif", "--out_path", r + "/out", "--method", case.method,
         "--yaml_path", r + "/cfg.yaml", "--year_lowbound", str(scn["lo"]), "--year_uppbound", str(scn["hi"])]
    if scn.get("coefs"):
        a += ["--coefs", ",".join(scn["coefs"])]
        if scn.get("bands") is not None:
            a += ["--coefs_bands", ", ".join(map(str, scn["bands"]))]
    return a


def readmap(p):
    from osgeo import gdal
    ds = gdal.Open(p)
    if ds is None:
        return None
    return ds.ReadAsArray(), ds.GetGeoTransform(), ds.GetProjection(), ds.RasterCount


def check(case, scn, out):
    """-> list of (class, text)"""
    from osgeo import osr
    bad = []
    bands = (scn["bands"] if scn.get("bands") is not None else list(range(7))) if scn.get("coefs") else []
    br, co, tol, rc, fs = case.expected(scn["lo"], scn["hi"], scn.get("coefs"), bands)
    want = {}
    for y, e in br.items():
        want["%d_break_map_%s.tif" % (y, case.method)] = ("break map of %d" % y, e, None)
    for (y, b, c), e in co.items():
        want["%d_coefs_%s_%d_%s.tif" % (y, case.method, b, c)] = ("coefficient layer %s of band %d, %d" % (c, b, y), e, (y, b, c))
    want["recent_disturbance_map_%s.tif" % case.method] = ("recent-disturbance map", rc, None)
    want["first_disturbance_map_%s.tif" % case.method] = ("first-disturbance map", fs, None)
    d = out + {"COLD": "/cold_maps", "OBCOLD": "/obcold_maps", "SCCDOFFLINE": "/sccd_maps"}[case.method]
    n = [0]

    def add(c, t):
        if n[0] < 6:
            bad.append((c, t))
        n[0] += 1
    for f, (what, e, key) in sorted(want.items()):
        p = os.path.join(d, f)
        m = readmap(p) if os.path.exists(p) else None
        if m is None:
            add("content", "%s is %s" % (what, "unreadable" if os.path.exists(p) else "missing"))
            continue
        a, geo, proj, cnt = m
        if a.shape != e.shape or cnt != 1:
            add("grid", "%s has shape %s instead of %s" % (what, a.shape, e.shape))
            continue
        if tuple(geo) != tuple(case.geo) or not osr.SpatialReference(proj).IsSame(osr.SpatialReference(case.proj)):
            add("grid", "%s does not have the georeference of the reference image" % what)
        if key is None:
            w = np.argwhere(a.astype(np.int64) != e)
        else:
            t = np.full(e.shape, 1e-3)
            for (i, j) in case.px:
                t[i, j] = tol.get(key + (i, j), 1e-3)
            w = np.argwhere(~(np.abs(a.astype(float) - e) <= t))
        if len(w):
            i, j = w[0]
            add("content", "%s differs at %d of %d pixels, first (row %d, col %d): %s instead of %s" % (what, len(w), e.size, i, j, a[i, j], e[i, j]))
    have = []
    for dp, dn, fn in os.walk(out):
        have += [os.path.join(dp, x)[len(out) + 1:] for x in fn]
    pre = d[len(out) + 1:] + "/"
    left = sorted(x for x in have if not (x.startswith(pre) and x[len(pre):] in want))
    if left:
        add("tmpleft", "files remain besides the maps: %s" % left[:3])
    return bad


def run(scn, scratch, plan=None, log=None):
    case = Case.get(scratch, scn["data"])
    shutil.rmtree(case.root + "/out", ignore_errors=True)
    os.mkdir(case.root + "/out")
    out = Result()
    args = cli(case, scn)
    cfg = dict(scn["sim"])
    cfg.update(mpi_rank_base=0, mpi_size=scn["n_proc"])
    cfg["skew"] = {int(k): v for k, v in cfg.get("skew", {}).items()}
    fg = faults.FaultGen(scn["seed"], scn["faults"]) if scn.get("faults") and plan is None else None
    shared, dig, sched, step, ok = core.Plan(), hashlib.sha256(), hashlib.sha256(), 0, False
    tot = {}
    for att in range(14):
        sim = core.Sim(case.root, "%s.%d" % (scn["seed"], att) if att else scn["seed"], {r: Entry(args) for r in range(scn["n_proc"])}, cfg=cfg,
                       policy=scn["policy"], faultgen=fg, plan=plan, mpi=True, log=log, restart_failed=False, inc0=att, step0=step)
        sim.plan = shared
        sim.max_steps += step
        sim.run()
        step = sim.step + 1
        dig.update(sim.trace.digest())
        sched.update(sim.sched_hash.digest())
        for k, v in sim.counts.items():
            tot[k] = tot.get(k, 0) + v
        tot["sim_s"] = tot.get("sim_s", 0) + sim.now
        tot["spawned"] = tot.get("spawned", 0) + len(sim.nodes)
        for v in sim.violations:
            out.violations.append((v[0], v[1]))
        if sim.all_done():
            ok = True
            break
        if not (sim.kills or sim.ioerrs or sim.counts.get("short_write")) or sim.violations:
            for r, n in sorted(sim.nodes.items()):
                if n.exits and n.exits[-1][1] not in (0, -9):
                    out.violations.append(("fail", "process %d ended with an error: %s" % (r, n.exits[-1][2])))
                    break
            break
        tot["job_restart"] = tot.get("job_restart", 0) + 1
    out.plan = shared
    out.stats.update(tot)
    out.stats["steps"] = step
    out.stats["switches"] = len(shared.switches)
    out.sched = sched.hexdigest()[:16]
    if ok:
        for c, t in check(case, scn, case.root + "/out"):
            out.violations.append((c, t))
        h = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(case.root + "/out")):
            for f in sorted(fn):
                h.update(f.encode())
        dig.update(h.digest())
        out.stats["maps"] = len(os.listdir(case.root + "/out/" + os.listdir(case.root + "/out")[0])) if os.listdir(case.root + "/out") else 0
    elif not out.violations:
        out.violations.append(("stuck", "the export does not end after faults have stopped"))
    if case.fingerprint() != case.inputs:
        out.violations.append(("input", "the export changed its inputs"))
    dig.update(repr(sorted(set(out.violations))).encode())
    out.digest = dig.hexdigest()
    return out


def setup(snap, scratch):
    from . import worker as wk
    wk.mpi_module()
    import pycold.imagetool.export_change_map, pycold   # noqa
    from osgeo import gdal
    gdal.UseExceptions() if os.environ.get("SIM_GDAL_EXC") else None
    assert os.path.realpath(pycold.__file__).startswith(os.path.realpath(snap)), pycold.__file__
