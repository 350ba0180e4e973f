"""Tile jobs (COLD, S-CCD, OBCOLD with and without seed map): workload, oracle, invariants, one execution."""
import datetime as dt, hashlib, io, json, math, os, pickle, random, shutil
import numpy as np

from . import core, gen, ref, faults, scen

NAN = -9999


def sig_rec(a):
    return None if a is None else np.ascontiguousarray(a).tobytes()


def canon(x):
    """canonical form of a monitoring pack, independent of container types"""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return tuple(canon(v) for v in x)
        return ("a",) + tuple(canon(v) for v in x)
    if isinstance(x, np.void):
        return ("t",) + tuple(canon(v) for v in x.item()) if x.dtype.names is None else ("t",) + tuple(canon(x[n]) for n in x.dtype.names)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (list,)):
        return tuple(canon(v) for v in x)
    if isinstance(x, tuple):
        return ("t",) + tuple(canon(v) for v in x)
    return x


def ordstr(o):
    return dt.date.fromordinal(int(o)).isoformat()


class Case:
    """one data set on the simulated storage plus everything the oracle derives from it"""
    cache = {}
    recs = {}            # S-CCD records by pixel, of the last call of per_pixel

    @classmethod
    def get(cls, scratch, data):
        k = json.dumps(data, sort_keys=True)
        if k not in cls.cache:
            if len(cls.cache) >= 3:
                old = cls.cache.pop(next(iter(cls.cache)))
                shutil.rmtree(os.path.dirname(old.root), ignore_errors=True)
            cls.cache[k] = cls(scratch, data, len(cls.cache))
        return cls.cache[k]

    def __init__(self, scratch, data, n):
        self.data = data
        d = dict(data)
        self.tile = gen.Tile(**d)
        self.root = core.fresh_root(scratch)
        os.mkdir(self.root + "/cwd")
        self.tile.write(self.root + "/stack")
        rng = np.random.default_rng([data["seed"], 77])
        T = self.tile
        lab = rng.integers(1, 9, (T.rows, T.cols)).astype(np.uint8)
        for _ in range(4):      # coherent label map
            r, c = rng.integers(0, T.rows), rng.integers(0, T.cols)
            lab[r:r + 4, c:c + 4] = rng.integers(1, 9)
        lab[rng.random(lab.shape) < 0.05] = 255
        lab[rng.random(lab.shape) < rng.choice([0, 0, 0.05, 0.3])] = 0
        if not ((lab > 0) & (lab < 255)).any():
            lab[0, 0] = 1
        self.label = lab
        from osgeo import gdal
        ds = gdal.GetDriverByName("GTiff").Create(self.root + "/seed.tif", T.cols, T.rows, 1, gdal.GDT_Byte)
        ds.GetRasterBand(1).WriteArray(lab)
        ds.FlushCache()
        del ds
        self.memo = {}
        self.inputs = self.fingerprint()

    def fingerprint(self):
        out = {}
        for dp, dn, fn in os.walk(self.root + "/stack"):
            for f in fn:
                st = os.stat(os.path.join(dp, f))
                out[os.path.join(dp, f)[len(self.root):]] = (st.st_size, st.st_mtime_ns)
        return out

    # -------------------------------------------------------------- expected results
    def per_pixel(self, kind, conse, prob, b_c2, low, upp, interval=0):
        key = ("pp", kind, conse, prob, b_c2, low, upp, interval)
        if key in self.memo:
            return self.memo[key]
        from pycold import cold_detect, sccd_detect
        T = self.tile
        thr = ref.chi2ppf(prob)
        start, ncm = self.snapshots(interval) if kind == "OBCOLD" else (0, 0)
        out = {}
        for r in range(T.rows):
            for c in range(T.cols):
                dates, px = T.pixel_series(r, c, low, upp)
                pos = T.cols * r + c + 1
                if len(dates) == 0:
                    out[pos] = None
                    continue
                a = [px[:, b].astype(np.int64) for b in range(8)]
                try:
                    if kind == "COLD":
                        out[pos] = cold_detect(dates, *a, t_cg=thr, conse=conse, b_c2=b_c2, pos=pos)
                    elif kind == "SCCD":
                        q = sccd_detect(dates, *a, t_cg=thr, conse=conse, b_c2=b_c2, pos=pos)
                        self.recs[pos] = q.rec_cg
                        out[pos] = canon(list(self.unindex(q)))
                    else:
                        out[pos] = cold_detect(dates, *a, pos=pos, conse=conse, starting_date=start, n_cm=ncm, b_c2=b_c2,
                                               cm_output_interval=interval, b_output_cm=True)
                except Exception:
                    out[pos] = None
        self.memo[key] = out
        return out

    @staticmethod
    def unindex(p):
        return [p.position, p.rec_cg.tolist(), p.min_rmse, p.nrt_mode,
                p.nrt_model.tolist() if len(p.nrt_model) > 0 else p.nrt_model,
                p.nrt_queue.tolist() if len(p.nrt_queue) > 0 else p.nrt_queue]

    def snapshots(self, interval):
        s, e = int(self.tile.sd[0]), int(self.tile.sd[-1])
        return s, int((e - s + 1) / interval) + 1

    def block_positions(self, b):
        T = self.tile
        x, y = b
        return [T.cols * r + c + 1 for r in range((y - 1) * T.bh, y * T.bh) for c in range((x - 1) * T.bw, x * T.bw)]

    def block_records(self, pp, b):
        l = [pp[p] for p in self.block_positions(b) if pp[p] is not None]
        return np.hstack(l) if l else None

    def magnitudes(self, cm, cd, dates, made):
        """change magnitudes an earlier job left behind for the blocks it finished: objects of all sizes,
        magnitudes and dates around the thresholds of the segmentation"""
        T = self.tile
        rng = np.random.default_rng([made["seed"], 5])
        ok = np.zeros((T.rows, T.cols), bool)
        for r in range(T.rows):
            for c in range(T.cols):
                b = (c // T.bw + 1, r // T.bh + 1)
                ok[r, c] = (cm[:, r, c] != NAN).any() and b in [T.blocks[k] for k in made["blocks"]]
        rr, cc = np.mgrid[:T.rows, :T.cols]
        for i, d in enumerate(dates):
            style = rng.choice(["blobs", "blobs", "noise", "full", "empty"], p=[0.4, 0.2, 0.2, 0.15, 0.05])
            m = np.zeros((T.rows, T.cols))
            day = np.full((T.rows, T.cols), float(d)) + rng.integers(-60, 60)
            if style == "blobs":
                m += rng.choice([0, 3, 6])
                for _ in range(rng.integers(1, 7)):
                    a, w = rng.choice([7, 10, 12, 15, 18, 25, 60]) * rng.uniform(0.8, 1.2), rng.choice([0.4, 0.8, 1.5, 3, 8])
                    r0, c0 = rng.uniform(0, T.rows), rng.uniform(0, T.cols)
                    q = a * np.exp(-((rr - r0) ** 2 + (cc - c0) ** 2) / (2 * w * w))
                    day = np.where(q > m, d + rng.integers(-90, 90), day)
                    m = np.maximum(m, q)
            elif style == "noise":
                m = rng.lognormal(np.log(rng.choice([6, 10, 14])), rng.choice([0.2, 0.6]), m.shape)
            elif style == "full":
                m = rng.uniform(10, 16) + rng.uniform(0, rng.choice([0.5, 5, 20]), m.shape)
            day = day + np.round(rng.normal(0, rng.choice([0, 8, 30, 100]), m.shape))
            m = np.round(np.clip(m, 0, 300) * 100)
            gone = (rng.random(m.shape) < rng.choice([0, 0.05, 0.4])) | (m < rng.choice([1, 400, 500])) | (style == "empty")
            day = T.sd[np.abs(T.sd[None, None, :] - day[:, :, None]).argmin(2)]
            cm[i][ok] = np.where(gone, NAN, m)[ok]
            cd[i][ok] = np.where(gone, NAN, day - ref.LAUNCH)[ok]

    def obcold(self, conse, prob, b_c2, low, upp, interval, seedmap, seedyear, made=None):
        key = ("ob", conse, prob, b_c2, low, upp, interval, seedmap, seedyear, json.dumps(made))
        if key in self.memo:
            return self.memo[key]
        from pycold import obcold_reconstruct
        T = self.tile
        start, ncm = self.snapshots(interval)
        pp = self.per_pixel("OBCOLD", conse, prob, b_c2, low, upp, interval)
        cm = np.full((ncm, T.rows, T.cols), NAN, np.int64)
        cd = np.full((ncm, T.rows, T.cols), NAN, np.int64)
        recs = []
        for r in range(T.rows):
            for c in range(T.cols):
                v = pp[T.cols * r + c + 1]
                if v is not None:
                    recs.append(v[0])
                    cm[:, r, c], cd[:, r, c] = v[1], v[2]
        dates = [start + i * interval for i in range(ncm)]
        if made:
            self.magnitudes(cm, cd, dates, made)
        P = ref.params_from_tree()
        classes = None
        y0, y1 = dt.date.fromordinal(start).year, dt.date.fromordinal(dates[-1]).year
        if seedmap:
            years = list(range(y0, y1))
            rr = np.hstack(recs) if recs else []
            f = ref.features(rr, years, T.rows, T.cols)
            ty = seedyear or 2001
            rf = ref.train(f[years.index(ty)], self.label)
            classes = {y: ref.classify(rf, f[i]) for i, y in enumerate(years)}
        br = {}
        for i, d in enumerate(dates):
            if d - interval < start:
                br[d] = np.zeros((T.rows, T.cols), np.int64)
            else:
                cls = classes[max(dt.date.fromordinal(d).year - 1, y0)] if seedmap else None
                br[d] = ref.break_map(cm[i], cd[i], cm[i - 1], cd[i - 1], cls, P)
        stackb = np.stack([br[d] for d in dates])
        ob = {}
        for r in range(T.rows):
            for c in range(T.cols):
                dts, px = T.pixel_series(r, c, low, upp)
                pos = T.cols * r + c + 1
                ob[pos] = None
                if len(dts):
                    try:
                        ob[pos] = obcold_reconstruct(dts, *[px[:, k].astype(np.int64) for k in range(8)],
                                                     stackb[:, r, c].astype(np.int64), conse=conse, pos=pos, b_c2=b_c2)
                    except Exception:
                        pass
        out = dict(pp={p: (v[0] if v is not None else None) for p, v in pp.items()}, cm=cm, cd=cd, dates=dates,
                   classes=classes, breaks=br, ob=ob, raw=pp)
        self.memo[key] = out
        return out


# ------------------------------------------------------------------------------------------
def load_npy(p):
    with open(p, "rb") as f:
        return np.load(f, allow_pickle=False)


def same(a, b):
    return a.shape == b.shape and bool(np.array_equal(a.astype(np.int64), b))


class Checker:
    """what each product must contain, by file name (relative to the result directory)"""

    def __init__(self, case, scn):
        self.c, self.s = case, scn
        T = case.tile
        s = scn
        self.low = dt.date.fromisoformat(s["low"]).toordinal() if s.get("low") else 0
        self.upp = dt.date.fromisoformat(s["upp"]).toordinal() if s.get("upp") else 0
        a = (s["conse"], s["prob"], s["b_c2"], self.low, self.upp)
        self.m = s["method"]
        self.ob = None
        if self.m == "OBCOLD":
            self.ob = case.obcold(*a, s["interval"], s.get("seedmap"), s.get("seedyear"), s.get("made"))
            self.pp = self.ob["pp"]
        else:
            self.pp = case.per_pixel("COLD" if self.m == "COLD" else "SCCD", *a)
        self.bid = {i + 1: b for i, b in enumerate(T.blocks)}

    # every check returns None (fine) or a text
    def records(self, path, b, pp=None, what="record"):
        pp = self.pp if pp is None else pp
        exp = {p: pp[p] for p in self.c.block_positions(b) if pp[p] is not None}
        if not os.path.exists(path):
            return None if not exp else "%s file of block %s is missing" % (what, b)
        try:
            got = load_npy(path)
        except Exception as e:
            return "%s file of block %s is unreadable (%s)" % (what, b, type(e).__name__)
        if not exp and got.size == 0:
            return None
        if got.dtype.names is None or "pos" not in got.dtype.names:
            return "%s file of block %s holds no records" % (what, b)
        pos = got["pos"]
        for p in np.unique(pos):
            if int(p) not in exp:
                return "%s file of block %s holds records of pixel %d, which has none there" % (what, b, p)
        for p, e in exp.items():
            g = got[pos == p]
            if len(g) != len(e):
                return "%s: pixel %d has %d records instead of %d" % (what, p, len(g), len(e))
            if g.dtype != e.dtype:
                if g.dtype.names != e.dtype.names:
                    return "%s file of block %s: other record layout" % (what, b)
                g = g.astype(e.dtype)
            if g.tobytes() != e.tobytes():
                return "%s: records of pixel %d differ from the detector's" % (what, p)
        return None

    def sccd(self, path, b):
        exp = {p: self.pp[p] for p in self.c.block_positions(b) if self.pp[p] is not None}
        if not os.path.exists(path):
            return None if not exp else "record file of block %s is missing" % (b,)
        seen = {}
        try:
            with open(path, "rb") as f:
                while True:
                    try:
                        q = pickle.load(f)
                    except EOFError:
                        break
                    q = list(q)
                    seen.setdefault(int(q[0]), []).append(canon(q))
                tail = f.read()
        except Exception as e:
            return "record file of block %s is unreadable (%s)" % (b, type(e).__name__)
        for p in seen:
            if p not in exp:
                return "record file of block %s holds pixel %d, which has no result there" % (b, p)
        for p, e in exp.items():
            l = seen.get(p, [])
            if len(l) != 1:
                return "pixel %d occurs %d times in its record file" % (p, len(l))
            if l[0] != e:
                return "result of pixel %d differs from the detector's" % p
        return None

    def cmblock(self, path, b, k):
        T = self.c.tile
        x, y = b
        e = self.ob[k][:, (y - 1) * T.bh:y * T.bh, (x - 1) * T.bw:x * T.bw].reshape(len(self.ob["dates"]), -1).T
        try:
            g = load_npy(path)
        except Exception as ex:
            return "%s block file %s: %s" % (k, b, "missing" if not os.path.exists(path) else type(ex).__name__)
        if g.size != e.size or not np.array_equal(g.reshape(e.shape).astype(np.int64), e):
            return "%s block file %s differs from the detector's values" % (k, b)

    def nmap(self, path, e, what):
        try:
            g = load_npy(path)
        except Exception as ex:
            return "%s %s" % (what, "is missing" if not os.path.exists(path) else "is unreadable (%s)" % type(ex).__name__)
        if g.shape != e.shape:
            return "%s has shape %s" % (what, g.shape)
        if not np.array_equal(g.astype(np.int64), e):
            bad = np.argwhere(g.astype(np.int64) != e)
            return "%s differs at %d of %d pixels, first (row %d, col %d): %d instead of %d" % (
                what, len(bad), e.size, bad[0][0], bad[0][1], g[tuple(bad[0])], e[tuple(bad[0])])

    def cmname(self, d, k):
        j = dt.date.fromordinal(d)
        return "cm_maps/%s_maps_%d_%d%03d.npy" % (k, d, j.year, j.timetuple().tm_yday)

    def obianame(self, d, b):
        j = dt.date.fromordinal(d)
        return "OBIAresults/obiaresult_%d_%d%03d_x%d_y%d.npy" % (d, j.year, j.timetuple().tm_yday, b[0], b[1])

    def earlier(self, res):
        """the result directory as a job that ended early leaves it: some blocks are finished"""
        os.makedirs(res + "/cm_maps")
        T = self.c.tile
        for k in self.s["made"]["blocks"]:
            b = x, y = T.blocks[k]
            recs = self.c.block_records(self.pp, b)
            if recs is not None:
                np.save(res + "/record_change_x%d_y%d_cold.npy" % b, recs)
            for nm, q in (("CM", "cm"), ("CM_date", "cd")):
                e = self.ob[q][:, (y - 1) * T.bh:y * T.bh, (x - 1) * T.bw:x * T.bw].reshape(len(self.ob["dates"]), -1).T
                np.save(res + "/%s_x%d_y%d.npy" % (nm, x, y), np.ascontiguousarray(e).ravel().astype(np.short))
            open(res + "/COLD_block%d_finished.txt" % (k + 1), "w").close()

    def products(self):
        """{final file: check(path)} of everything the finished job must contain"""
        T = self.c.tile
        out = {}
        for i, b in self.bid.items():
            out["COLD_block%d_finished.txt" % i] = lambda p, i=i: None if os.path.exists(p) else "block %d is not flagged as finished" % i
            if self.m == "SCCDOFFLINE":
                out["record_change_x%d_y%d_sccd.npy" % b] = lambda p, b=b: self.sccd(p, b)
            else:
                out["record_change_x%d_y%d_cold.npy" % b] = lambda p, b=b: self.records(p, b)
            if self.m == "OBCOLD":
                out["CM_x%d_y%d.npy" % b] = lambda p, b=b: self.cmblock(p, b, "cm")
                out["CM_date_x%d_y%d.npy" % b] = lambda p, b=b: self.cmblock(p, b, "cd")
                out["obcold/record_change_x%d_y%d_obcold.npy" % b] = lambda p, b=b: self.records(p, b, self.ob["ob"], "object-based record")
        if self.m == "OBCOLD":
            for i, d in enumerate(self.ob["dates"]):
                out[self.cmname(d, "CM")] = lambda p, i=i, d=d: self.nmap(p, self.ob["cm"][i], "change-magnitude map of %s" % ordstr(d))
                out[self.cmname(d, "CM_date")] = lambda p, i=i, d=d: self.nmap(p, self.ob["cd"][i], "change-date map of %s" % ordstr(d))
                for b in T.blocks:
                    x, y = b
                    e = self.ob["breaks"][d][(y - 1) * T.bh:y * T.bh, (x - 1) * T.bw:x * T.bw]
                    out[self.obianame(d, b)] = lambda p, e=e, d=d, b=b: self.nmap(p, e, "break map of %s, block %s" % (ordstr(d), b))
                out["OBIAresults/tmp_OBIA_%d_finished.txt" % d] = lambda p, d=d: None if os.path.exists(p) else "snapshot %s is not flagged as finished" % d
            if self.s.get("seedmap"):
                for y, m in self.ob["classes"].items():
                    out["feature_maps/yearlyclassification_%d.npy" % y] = lambda p, m=m, y=y: self.nmap(p, m, "land-cover map of %d" % y)
        return out


class Invariant:
    """flagged as finished => complete and final, evaluated after every storage operation"""

    def __init__(self, ck, res):
        self.ck, self.res = ck, res
        self.prod = ck.products()
        self.reg = {}                 # watched product -> check
        self.flagged = set()
        ob = ck.ob
        T = ck.c.tile
        self.groups = []              # (name, [files whose joint existence signals completion], [products])
        for i, b in ck.bid.items():
            ps = ["record_change_x%d_y%d_%s.npy" % (b[0], b[1], "sccd" if ck.m == "SCCDOFFLINE" else "cold")]
            if ob:
                ps += ["CM_x%d_y%d.npy" % b, "CM_date_x%d_y%d.npy" % b]
            self.groups.append(("block %d" % i, ["COLD_block%d_finished.txt" % i], ps))
        if ob:
            m = [ck.cmname(d, k) for d in ob["dates"] for k in ("CM", "CM_date")]
            self.groups.append(("change-magnitude snapshots", m, m))
            for d in ob["dates"]:
                self.groups.append(("break map %d" % d, ["OBIAresults/tmp_OBIA_%d_finished.txt" % d], [ck.obianame(d, b) for b in T.blocks]))
            if ck.s.get("seedmap"):
                y = ["feature_maps/yearlyclassification_%d.npy" % k for k in ob["classes"]]
                self.groups.append(("land-cover maps", y, y))
                self.prod["feature_maps/rf.model"] = self.rf_ok
                self.groups.append(("classification model", ["feature_maps/rf.model"], ["feature_maps/rf.model"]))
                yrs = list(ob["classes"])
                for i, b in ck.bid.items():
                    for st, nm in (("tmp_step1_predict_%d_finished.txt" % i, "tmp_feature_year%d_block%d.npy"),
                                   ("tmp_step3_classification_%d_finished.txt" % i, "tmp_yearlyclassification%d_block%d.npy")):
                        ps = ["feature_maps/" + nm % (k, i) for k in yrs]
                        for p in ps:
                            self.prod[p] = self.readable
                        self.groups.append(("classification step of block %d" % i, ["feature_maps/" + st], ps))
        self.sig = {}
        self.sha = {}
        self.bad = set()
        for g in self.groups:
            for f in g[1]:
                self.sig.setdefault(f, []).append(g)
        self.checks = 0

    def start(self):
        for g in self.groups:
            if all(os.path.exists(os.path.join(self.res, f)) for f in g[1]):
                self.flagged.add(g[0])
                for x in g[2]:
                    self.reg[x] = g[0]
                    self.sha[x] = file_sha(os.path.join(self.res, x))

    def rf_ok(self, p):
        try:
            import joblib
            joblib.load(p)
        except Exception as e:
            return "rf.model is unreadable (%s)" % type(e).__name__

    def readable(self, p):
        if not os.path.exists(p) and self.complete():
            return None                      # removed after the maps were complete
        try:
            load_npy(p)
        except Exception as e:
            return "%s is %s" % (os.path.basename(p), "missing" if not os.path.exists(p) else "unreadable (%s)" % type(e).__name__)

    def complete(self):
        return all(os.path.exists(os.path.join(self.res, f)) for n, fs, ps in self.groups if n == "land-cover maps" for f in fs)

    def __call__(self, sim, n, kind, path):
        todo = set()
        names = [path]
        if kind == "rename":
            names = [path, getattr(sim, "last_arg", path)]
        for nm in names:
            if not isinstance(nm, str) or not nm.startswith("res/"):
                continue
            p = nm[4:]
            for g in self.sig.get(p, ()):
                if g[0] not in self.flagged and all(os.path.exists(os.path.join(self.res, f)) for f in g[1]):
                    self.flagged.add(g[0])
                    for x in g[2]:
                        self.reg[x] = g[0]
                        todo.add(x)
            if p in self.reg:
                todo.add(p)
        for x in sorted(todo):
            self.checks += 1
            f = os.path.join(self.res, x)
            who = "(after %s of %s by worker %d)" % (kind, path, n.rank)
            if x in self.bad:
                continue
            if x not in self.sha:
                t = self.prod[x](f)
                if t:
                    if "missing" in t or "unreadable" in t:
                        self.bad.add(x)
                        sim.violate("flag", "%s is recognised as finished but: %s %s" % (self.reg[x], t, who))
                        continue
                    sim.violate("flagcontent", "%s is recognised as finished but: %s" % (self.reg[x], t))
                self.sha[x] = file_sha(f)
            elif file_sha(f) != self.sha[x]:
                if x.startswith("feature_maps/tmp_") and not os.path.exists(f) and self.complete():
                    continue                  # removed after the maps were complete
                t = self.prod[x](f)
                self.bad.add(x)
                sim.violate("flag", "%s is recognised as finished, but %s changes afterwards%s %s" %
                            (self.reg[x], os.path.basename(x), " (%s)" % t if t else "", who))


def file_sha(p):
    try:
        with open(p, "rb") as f:
            return hashlib.sha256(f.read()).digest()
    except OSError:
        return None


class Entry:
    def __init__(self, args):
        self.args = args

    def __call__(self):
        from pycold.imagetool import tile_processing
        tile_processing.main.main(self.args, prog_name="tile_processing", standalone_mode=False)


def cli(case, scn, rank):
    r = case.root
    a = ["--rank", str(rank), "--n_cores", str(scn["n_cores"]), "--stack_path", r + "/stack", "--result_path", r + "/res",
         "--yaml_path", r + "/cfg.yaml", "--method", scn["method"]]
    if scn.get("seedmap"):
        a += ["--seedmap_path", r + "/seed.tif"]
    if scn.get("seedyear"):
        a += ["--seedmap_year", str(scn["seedyear"])]
    if scn.get("low"):
        a += ["--low_datebound", scn["low"]]
    if scn.get("upp"):
        a += ["--upper_datebound", scn["upp"]]
    if scn["b_c2"]:
        a += ["--b_c2"]
    return a


LOGS = ("tile_processing_report.log",)


def listing(res):
    out = {}
    for dp, dn, fn in os.walk(res):
        for f in fn:
            p = os.path.join(dp, f)
            out[p[len(res) + 1:]] = p
    return out


class Result:
    def __init__(self):
        self.violations = []      # (class, text)
        self.digest = ""
        self.plan = None
        self.stats = {}
        self.kinds = {}


def new_sim(scn, root, entries, plan, invariant=None, **kw):
    cfg = dict(scn["sim"])
    cfg.setdefault("passthrough", [])
    cfg["skew"] = {int(k): v for k, v in cfg.get("skew", {}).items()}
    fg = None
    if scn.get("faults") and plan is None:
        fg = faults.FaultGen(scn["seed"], scn["faults"])
    return core.Sim(root, scn["seed"], entries, cfg=cfg, policy=scn["policy"], faultgen=fg, plan=plan, invariant=invariant, **kw)


def run(scn, scratch, plan=None, log=None, keep=False):
    case = Case.get(scratch, scn["data"])
    T = case.tile
    scn = scen.bounds(scn, T.sd)
    shutil.rmtree(case.root + "/res", ignore_errors=True)
    T.yaml(case.root + "/cfg.yaml", conse=scn["conse"], interval=scn.get("interval", 32), prob=scn["prob"])
    ck = Checker(case, scn)
    res = case.root + "/res"
    inv = Invariant(ck, res)
    if scn.get("made"):
        ck.earlier(res)
        inv.start()
    entries = {r: Entry(cli(case, scn, r)) for r in range(1, scn["n_cores"] + 1)}
    sim = new_sim(scn, case.root, entries, plan, invariant=inv, log=log)
    sim.run()
    out = Result()
    out.plan, out.digest = sim.plan, sim.digest
    for v in sim.violations:
        if (v[0], v[1]) not in out.violations:
            out.violations.append((v[0], v[1]))
    finish(out, sim)
    for r, e in sorted(sim.failed().items()):
        out.violations.append(("fail", "worker %d ended with an error: %s" % (r, e[2])))
    final_checks(out, sim, ck, case, scn, res)
    out.stats["invariant_checks"] = inv.checks
    out.stats["pixels"] = T.rows * T.cols
    return out


def finish(out, sim):
    out.stats.update(dict(sim.counts))
    out.stats["steps"] = sim.step
    out.stats["sim_s"] = sim.now
    out.stats["switches"] = len(sim.plan.switches)
    out.sched = sim.sched_hash.hexdigest()[:16]
    out.stats["spawned"] = sum(n.inc + 1 for n in sim.nodes.values())


def final_checks(out, sim, ck, case, scn, res):
    done = sim.all_done()
    if done:
        prods = ck.products()
        for p, f in prods.items():
            t = f(os.path.join(res, p))
            if t:
                cls = "landcover" if "yearlyclass" in p else "obia" if "obiaresult" in p else "cmmap" if p.startswith("cm_maps") else \
                    "obrecord" if p.startswith("obcold") else "content"
                out.violations.append((cls, t))
                if (sim.ioerrs or sim.counts.get("short_write")) and not sim.kills:
                    out.violations.append(("silent", "after a storage error and no crash, every worker reports success but: " + t))
        have = listing(res)
        extra = []
        for p in have:
            b = os.path.basename(p)
            if p in prods or p in LOGS or p in ("feature_maps/rf.model",):
                continue
            extra.append(p)
        tmpf = [p for p in extra if p.startswith("feature_maps/tmp_")]
        if tmpf:
            out.violations.append(("tmpleft", "temporary classification files remain: %s" % sorted(tmpf)[:3]))
        base = baseline_extra(case, scn)
        left = [p for p in extra if p not in tmpf and p not in base]
        if left:
            out.violations.append(("extra", "result directory contains files an uninterrupted run does not leave: %s" % sorted(left)[:3]))
    if case.fingerprint() != case.inputs:
        out.violations.append(("input", "the job changed its input stack"))


def baseline_extra(case, scn):
    return ()


def setup(snap, scratch):
    """import everything once: the simulated processes are forked from here"""
    import pycold.imagetool.tile_processing, pycold.ob_analyst, pycold.utils, joblib   # noqa
    import cv2, scipy.stats, astropy.convolution, skimage.measure, sklearn.ensemble    # noqa
    cv2.setNumThreads(0)
    assert os.path.realpath(pycold.__file__).startswith(os.path.realpath(snap)), pycold.__file__
