"""C07, C08: stacking raw scenes into block files: workload, oracle, one execution."""
import copy, datetime as dt, hashlib, io, json, os, random, shutil, tarfile
import numpy as np

from . import core, faults, scen
from .export import WKT
from .tile import Result, finish, new_sim

CLEAR, WATER, SHADOW, SNOW, CLOUD, FILL = 0, 1, 2, 3, 4, 255
USABLE = (CLEAR, WATER, SNOW)
SIX = {"HLS": ["B02", "B03", "B04", "B05", "B06", "B07"], "S": ["B02", "B03", "B04", "B8A", "B11", "B12"]}


def qa_hls(c, r):
    if c == FILL:
        return 255
    v = (r.randrange(4) << 6) | r.randrange(2)
    if v >> 6 == 3 and c == CLOUD:
        v &= 0x7F
    low = lambda *b: sum(r.choice([0, 0, 0, 1]) << k for k in b)
    if c == WATER:
        return v | 1 << 5
    if c == SNOW:
        return v | 1 << 4 | low(5)
    if c == SHADOW:
        return v | 1 << 3 | low(4, 5)
    if c == CLOUD:
        return v | r.choice([1 << 1, 1 << 2, 3 << 1]) | low(3, 4, 5)
    return v


def qa_c1(c, r):
    if c == FILL:
        return 1
    low = lambda *b: sum(r.choice([0, 0, 0, 1]) << k for k in b)
    v = r.randrange(8) << 6
    return v | {CLEAR: 2, WATER: 4 | low(1), SNOW: 16 | low(1, 2), SHADOW: 8 | low(1, 2, 4), CLOUD: 32 | low(1, 2, 3, 4)}[c]


def qa_c2(c, r):
    if c == FILL:
        return 1
    low = lambda *b: sum(r.choice([0, 0, 0, 1]) << k for k in b)
    v = r.randrange(8) << 8
    return v | {CLEAR: 1 << 6, WATER: 1 << 7 | low(6), SNOW: 1 << 5 | low(6, 7), SHADOW: 1 << 4 | low(5, 6, 7),
                CLOUD: r.choice([1 << 3, 1 << 1, 10]) | low(4, 5, 6, 7)}[c]


def ymd(o):
    return dt.date.fromordinal(int(o))


def tif(path, a, gt, geo, proj, opts=()):
    from osgeo import gdal
    ds = gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], 1, gt, list(opts))
    ds.SetGeoTransform(geo)
    ds.SetProjection(proj)
    ds.GetRasterBand(1).WriteArray(a)
    ds.FlushCache()
    del ds


def tarup(src, dst):
    with tarfile.open(dst, "w") as t:
        for f in sorted(os.listdir(src)):
            t.add(os.path.join(src, f), f)


def unreadable(p):
    from osgeo import gdal, gdal_array
    try:
        a = gdal_array.LoadFile(p)
    except Exception:
        return True
    return a is None


BAD_DIR = ["noband", "noqa", "emptydir", "garbageband", "garbageqa", "cutband", "cutqa", "smallband", "smallqa", "deepband", "deepqa",
           "sensor", "allfill"]
BAD = {"HLS": BAD_DIR,
       "HLS14": ["garbage", "cut", "empty", "small", "fewbands", "sensor", "allfill"],
       "C2": ["garbage", "cut", "empty", "noband", "noqa", "garbageband", "garbageqa", "cutqa", "sensor", "allfill"],
       "ARD": ["garbage", "cut", "empty", "noband", "noqa", "garbageband", "garbageqa", "cutband", "cutqa", "smallband", "smallqa",
               "nobt", "cutbt", "emptybt", "noxml", "badxml", "nowrs", "nopath", "deepband", "deepqa", "sensor", "allfill"]}
BAD["ARD-C2"] = BAD["ARD"]


class Case:
    cache = {}

    @classmethod
    def get(cls, scratch, data):
        k = json.dumps(data, sort_keys=True)
        if k not in cls.cache:
            if len(cls.cache) >= 3:
                old = cls.cache.pop(next(iter(cls.cache)))
                shutil.rmtree(os.path.dirname(old.root), ignore_errors=True)
            cls.cache[k] = cls(scratch, **data)
        return cls.cache[k]

    def __init__(self, scratch, seed, rows, cols, nbx, nby, coll, n, bad=(), tile=None):
        self.rows, self.cols, self.nbx, self.nby, self.coll = rows, cols, nbx, nby, coll
        self.bw, self.bh = cols // nbx, rows // nby
        self.blocks = [(x, y) for y in range(1, nby + 1) for x in range(1, nbx + 1)]
        self.r = r = random.Random("st-%s" % seed)
        self.g = np.random.default_rng(r.randrange(2 ** 31))
        self.root = core.fresh_root(scratch)
        os.mkdir(self.root + "/cwd")
        self.src = self.root + "/src"
        os.mkdir(self.src)
        self.known = set()
        with open(self.root + "/cfg.yaml", "w") as f:
            f.write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n" % (rows, cols, nbx, nby))
        self.place()
        self.scenes = []
        if tile is None:
            used = set()
            d0 = dt.date(r.choice([1999, 2004, 2015]), 1, 1).toordinal() + r.randrange(300)
            for k in range(n):
                while True:
                    d, s = d0 + r.randrange(0, 420), self.sensor()
                    if r.random() < 0.15:
                        d = dt.date(ymd(d).year, 12, 31).toordinal() + r.choice([0, 1])
                    if (d, s) not in used:
                        break
                used.add((d, s))
                self.scene(d, s, bad[k] if k < len(bad) else None)
        else:
            for d, s, a, b in tile:
                self.scene(d, s, b, a)
        self.pathmap = None
        if coll.startswith("ARD"):
            self.pathmap = self.paths
        self.inputs = self.fingerprint()

    def sensor(self):
        return self.r.choice({"HLS": ["L30", "S30"], "HLS14": ["L30", "S30"]}.get(self.coll, ["LT5", "LE7", "LC8", "LC9", "LT4"]))

    def place(self):
        """position of the tile: at a boundary of two satellite paths"""
        from osgeo import gdal, osr
        r = self.r
        self.res = 30.0 if self.coll == "C2" else 600.0
        sr = osr.SpatialReference()
        sr.ImportFromWkt(WKT)
        self.proj = sr.ExportToWkt()
        self.geo = (r.randrange(-2000, 2000) * 30.0, self.res, 0.0, r.randrange(30000, 60000) * 30.0, 0.0, -self.res)
        if self.coll == "C2":
            import fiona
            w, e = self.geo[0], self.geo[0] + self.cols * 30
            n, s = self.geo[3], self.geo[3] - self.rows * 30
            with fiona.open(self.root + "/grid.shp", "w", driver="ESRI Shapefile", schema={"geometry": "Polygon", "properties": {"id": "int"}}) as f:
                for i, o in ((4, 90000), (7, 0), (9, -90000)):
                    q = [(w + o, s), (w + o, n), (e + o, n), (e + o, s), (w + o, s)]
                    f.write({"type": "Feature", "geometry": {"type": "Polygon", "coordinates": [q]}, "properties": {"id": i}})
        if not self.coll.startswith("ARD"):
            return
        import pycold.imagetool
        conus = os.path.join(os.path.dirname(pycold.imagetool.__file__), "singlepath_landsat_conus.tif")
        ds = gdal.Open(conus)
        a = ds.ReadAsArray()
        while True:
            y, x = r.randrange(1500, 2400), r.randrange(1000, 6000)
            m = np.argwhere(a[y, x:x + 800] != a[y, x])
            if len(m) and a[y, x]:
                x += int(m[0][0])
                break
        lon, lat = -130 + 0.01 * x, 55 - 0.01 * (y + 0.5)
        g = osr.SpatialReference()
        g.ImportFromWkt(ds.GetProjection())
        g.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        sr.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        px, py, _ = osr.CoordinateTransformation(g, sr).TransformPoint(lon, lat)
        self.geo = (float(round(px)) - self.res * r.randrange(0, self.cols + 1), self.res, 0.0,
                    float(round(py)) + self.res * r.randrange(0, self.rows + 1), 0.0, -self.res)
        out = gdal.Warp("", ds, options=gdal.WarpOptions(
            format="MEM", dstSRS=self.proj, width=self.cols, height=self.rows,
            outputBounds=[self.geo[0], self.geo[3] - self.res * self.rows, self.geo[0] + self.res * self.cols, self.geo[3]]))
        self.paths = out.ReadAsArray().astype(int)
        del out, ds

    # ------------------------------------------------------------------ one scene
    def codes(self):
        r = self.r
        q = np.zeros((self.rows, self.cols), int)
        kind = r.choice(["mixed", "mixed", "cloudy", "half", "blocks", "rare"])
        for i in range(self.rows):
            for j in range(self.cols):
                w = {"mixed": [6, 1, 1, 1, 3, 1], "cloudy": [1, 0, 4, 0, 20, 3], "half": [3, 1, 1, 1, 6, 4],
                     "blocks": [6, 1, 1, 1, 3, 1], "rare": [1, 0, 10, 1, 60, 20]}[kind]
                q[i, j] = r.choices([CLEAR, WATER, SHADOW, SNOW, CLOUD, FILL], w)[0]
        if kind == "blocks":
            for x, y in self.blocks:
                if r.random() < 0.5:
                    b = q[(y - 1) * self.bh:y * self.bh, (x - 1) * self.bw:x * self.bw]
                    b[:] = r.choice([CLOUD, FILL, SHADOW, CLEAR, SNOW, WATER])
                    if r.random() < 0.4:        # a single usable pixel
                        b[r.randrange(self.bh), r.randrange(self.bw)] = r.choice([CLEAR, WATER, SNOW])
        if r.random() < 0.05:
            q[:] = r.choice([CLOUD, FILL, CLEAR])
        return q

    def scene(self, d, sensor, bad, arr=None):
        from osgeo import gdal
        r, g, C = self.r, self.g, self.coll
        R, K = self.rows, self.cols
        q = arr[:, :, 7].astype(int) if arr is not None else self.codes()
        if bad == "allfill":
            q[:] = FILL
        # archives of whole scenes end somewhere: padding around the tile, or an edge inside it (or past it)
        win = [-r.randrange(0, 3), R + r.randrange(0, 3), -r.randrange(0, 3), K + r.randrange(0, 3)]
        if C == "C2" and arr is None and r.random() < 0.35:
            for a in (0, 2):
                n = (R, K)[a // 2]
                how = r.random()
                if how < 0.4:
                    win[a] = r.randrange(0, n)
                elif how < 0.8:
                    win[a + 1] = r.randrange(1, n + 1)
                if win[a + 1] <= win[a]:
                    win[a + 1] = win[a] + 1
            if r.random() < 0.08:
                win = [R + 1, R + 3, 0, K]
            seen = np.zeros((R, K), bool)
            seen[max(win[0], 0):max(win[1], 0), max(win[2], 0):max(win[3], 0)] = True
            q[~seen] = FILL
        lim = (-2000, 16000)
        if arr is not None:
            b = [arr[:, :, k].astype(np.int64) for k in range(7)]
        else:
            b = [g.integers(lim[0], lim[1], (R, K)) for k in range(7)]
            for k in range(7):
                b[k][q == FILL] = -9999
        raw, exp, gt, qgt = b, list(b), gdal.GDT_Int16, gdal.GDT_UInt16
        if C in ("HLS", "HLS14"):
            exp[6] = np.zeros((R, K), np.int64)
            qr = np.array([[qa_hls(int(v), r) for v in row] for row in q])
            qgt = gdal.GDT_Byte
        elif C == "ARD":
            qr = np.array([[qa_c1(int(v), r) for v in row] for row in q])
        else:
            gt = gdal.GDT_UInt16
            raw = [g.integers(0, 50000, (R, K)) for k in range(7)]
            for k in range(7):
                raw[k][q == FILL] = 0
            if arr is not None:
                # values in the middle of a unit: rounding cannot go either way
                raw = [np.clip(np.ceil((b[k] + 0.3 + 2000) / 0.275), 1, 65535).astype(np.int64) for k in range(6)] + [
                    np.clip(np.round(((b[6] + 0.5) / 10.0 - 149) / 0.00341802), 1, 65535).astype(np.int64)]
                for k in range(7):
                    raw[k][q == FILL] = 0
            exp = [np.trunc(10000 * (raw[k] * 2.75e-05 - 0.2)) for k in range(6)] + [np.trunc(10 * (raw[6] * 0.00341802 + 149))]
            qr = np.array([[qa_c2(int(v), r) for v in row] for row in q])
        day = ymd(d)
        s = dict(date=d, sensor=sensor, codes=q, exp=np.dstack(exp + [q]).astype(np.int64), bad=bad, path=None)
        jul = "%04d%03d" % (day.year, day.timetuple().tm_yday)
        small = bad in ("small",)
        cut = lambda a: a[:-1] if a.shape[0] > 1 else a[:, :-1] if a.shape[1] > 1 else np.zeros((2, 2), a.dtype)
        if C == "HLS":
            nm = "HLS.%s.T18TYM.%sT%02d3919.v2.0" % (sensor if bad != "sensor" else "X30", jul, r.randrange(10, 20))
            p = os.path.join(self.src, nm)
            os.mkdir(p)
            if bad != "emptydir":
                names = SIX["HLS" if sensor == "L30" else "S"]
                for k in range(6):
                    tif("%s/%s.%s.tif" % (p, nm, names[k]), raw[k], gt, self.geo, self.proj, ["COMPRESS=LZW"] if r.random() < 0.3 else [])
                tif("%s/%s.Fmask.tif" % (p, nm), qr, qgt, self.geo, self.proj)
                for x in ("B01", "B09", "B10"):
                    tif("%s/%s.%s.tif" % (p, nm, x), raw[0] // 2, gt, self.geo, self.proj)
                self.damage(bad, ["%s/%s.%s.tif" % (p, nm, x) for x in names], "%s/%s.Fmask.tif" % (p, nm), cut)
        elif C == "HLS14":
            nm = "HLS.%s.T18TYM.%s.v1.4.hdf" % (sensor if bad != "sensor" else "X30", jul)
            d1 = os.path.join(self.src, r.choice(["", "L30", "S30/2020"]))
            os.makedirs(d1, exist_ok=True)
            p = os.path.join(d1, nm)
            nb = 11 if sensor == "L30" else 14
            if bad == "fewbands":
                nb = r.randrange(1, 7)
            at = {k: raw[i] for i, k in enumerate([1, 2, 3, 4, 5, 6] if sensor == "L30" else [1, 2, 3, 8, 11, 12])}
            ds = gdal.GetDriverByName("HDF4Image").Create(p, K, R - (1 if small and R > 1 else 0), nb, gdal.GDT_Int16, ["RANK=2"])
            h = ds.RasterYSize
            for k in range(nb):
                ds.GetRasterBand(k + 1).WriteArray((qr if k == nb - 1 else at.get(k, raw[0] // 2 + k)).astype(np.int16)[:h])
            ds.FlushCache()
            del ds
            if small and R == 1:
                s["bad"] = None
            if bad == "garbage":
                self.garbage(p)
            elif bad == "empty":
                open(p, "w").close()
            elif bad == "cut":
                b0 = open(p, "rb").read()
                open(p, "wb").write(b0[:r.randrange(1, 200)])
            shutil.rmtree(p + ".aux.xml", ignore_errors=True)
            if os.path.exists(p + ".aux.xml"):
                os.unlink(p + ".aux.xml")
        else:
            digit = {"LT5": "05", "LE7": "07", "LC8": "08", "LC9": "09", "LT4": "04"}[sensor] if bad != "sensor" else "00"
            T = self.root + "/mk"
            shutil.rmtree(T, ignore_errors=True)
            os.makedirs(T + "/a")
            os.makedirs(T + "/b")
            th = sensor in ("LC8", "LC9")
            if C == "C2":
                nm = "L%s%s_L2SP_046027_%s_%s_02_T1" % (sensor[1], digit, day.strftime("%Y%m%d"), dt.date.fromordinal(d + 20).strftime("%Y%m%d"))
                bn = ["%s_SR_B%d.TIF" % (nm, k) for k in ([2, 3, 4, 5, 6, 7] if th else [1, 2, 3, 4, 5, 7])] + ["%s_ST_B%d.TIF" % (nm, 10 if th else 6)]
                qn, xn, bt = "%s_QA_PIXEL.TIF" % nm, None, "a"
                for k in range(7):
                    tif("%s/a/%s" % (T, bn[k]), self.window(raw[k], win, 0), gt, self.pgeo(win), self.proj)
                tif("%s/a/%s" % (T, qn), self.window(qr, win, 1), qgt, self.pgeo(win), self.proj)
            else:
                c2 = C == "ARD-C2"
                base = "L%s%s_CU_019007_%s_%s_%s" % (sensor[1], digit, day.strftime("%Y%m%d"), dt.date.fromordinal(d + 300).strftime("%Y%m%d"),
                                                     "02" if c2 else "C01_V01")
                nm = base + "_SR"
                if c2:
                    bn = ["%s_B%d.TIF" % (nm, k) for k in ([2, 3, 4, 5, 6, 7] if th else [1, 2, 3, 4, 5, 7])] + ["%s_BT_B%d.TIF" % (base, 10 if th else 6)]
                    qn, first = base + "_QA_PIXEL.TIF", nm + "_B1.TIF"
                else:
                    bn = ["%sB%d.tif" % (nm, k) for k in ([2, 3, 4, 5, 6, 7] if th else [1, 2, 3, 4, 5, 7])] + ["%s_BTB%d.tif" % (base, 10 if th else 6)]
                    qn, first = base + "_PIXELQA.tif", nm + "B1.tif"
                xn, bt = base + ".xml", "b"
                for k in range(7):
                    tif("%s/%s/%s" % (T, "b" if k == 6 else "a", bn[k]), raw[k], gt, self.geo, self.proj)
                tif("%s/a/%s" % (T, qn), qr, qgt, self.geo, self.proj)
                if th:
                    tif("%s/a/%s" % (T, first), raw[0] // 2, gt, self.geo, self.proj)
                s["path"] = int(r.choice(list(self.paths.ravel())))
                if arr is not None and self.usual:
                    s["path"] = int(self.paths[0, 0])
                elif r.random() < 0.1:
                    s["path"] = 77
                if c2:
                    x = "<A><SCENE_METADATA><IMAGE_ATTRIBUTES><a>1</a><b>2</b><c>3</c><WRS_PATH>%d</WRS_PATH></IMAGE_ATTRIBUTES></SCENE_METADATA></A>" % s["path"]
                else:
                    x = ('<ard_metadata xmlns="https://landsat.usgs.gov/ard/v1"><scene_metadata><global_metadata><wrs system="2" path="%d" row="27"/>'
                         '</global_metadata></scene_metadata></ard_metadata>' % s["path"])
                if bad == "nowrs":
                    x = "<A><SCENE_METADATA></SCENE_METADATA></A>"
                if bad == "nopath":
                    v = "%d<" % s["path"] if c2 else '"%d"' % s["path"]
                    t = r.choice(["<", "x<", "4.5<"] if c2 else ['""', '"x"', '"4.5"'])
                    if r.random() < 0.3:
                        v, t = ("<a>1</a><b>2</b>", "") if c2 else ("path=", "route=")
                    assert v in x
                    x = x.replace(v, t)
                if bad == "badxml":
                    x = x[:r.randrange(0, len(x) - 2)]
                if bad != "noxml":
                    open("%s/a/%s" % (T, xn), "w").write(x)
            self.damage(bad, ["%s/%s/%s" % (T, bt if k == 6 else "a", bn[k]) for k in range(7)], "%s/a/%s" % (T, qn), cut)
            main, second = os.path.join(self.src, nm + ".tar"), os.path.join(self.src, nm[:-2] + "BT.tar")
            tarup(T + "/a", main)
            if xn is not None:
                if bad != "nobt":
                    tarup(T + "/b", second)
                if bad == "cutbt":
                    self.cuttar(second)
                if bad == "emptybt":
                    open(second, "w").close()
            if bad == "garbage":
                self.garbage(main)
            elif bad == "empty":
                open(main, "w").close()
            elif bad == "cut":
                self.cuttar(main)
            shutil.rmtree(T)
        s["name"] = nm
        have = {f for f in (os.listdir(self.src) if C != "HLS14" else
                            [os.path.relpath(os.path.join(dp, f), self.src) for dp, dn, fn in os.walk(self.src) for f in fn])}
        s["files"] = sorted(have - self.known)
        self.known = have
        self.scenes.append(s)

    def window(self, a, w, v):
        """the part of the plane an archive covers: it may reach past the tile, or end inside it"""
        h, k = w[1] - w[0], w[3] - w[2]
        out = self.g.integers(1, 1000, (h, k)) if v == 0 else np.full((h, k), 1 << 6)
        y0, y1, x0, x1 = max(w[0], 0), min(w[1], a.shape[0]), max(w[2], 0), min(w[3], a.shape[1])
        if y0 < y1 and x0 < x1:
            out[y0 - w[0]:y1 - w[0], x0 - w[2]:x1 - w[2]] = a[y0:y1, x0:x1]
        return out

    def pgeo(self, w):
        return (self.geo[0] + 30.0 * w[2], 30.0, 0.0, self.geo[3] - 30.0 * w[0], 0.0, -30.0)

    def garbage(self, p):
        open(p, "wb").write(bytes(self.r.randrange(256) for _ in range(self.r.choice([5, 300, 2000]))))

    def cuttar(self, p):
        """ends inside the data of a member"""
        with tarfile.open(p) as t:
            m = [x for x in t.getmembers() if x.size > 1]
            x = self.r.choice(m)
            at = x.offset_data + self.r.randrange(0, x.size)
        b = open(p, "rb").read()
        open(p, "wb").write(b[:max(at, 1)])

    def damage(self, bad, bands, qa, cut):
        from osgeo import gdal
        r = self.r
        if bad is None:
            return
        p = qa if bad.endswith("qa") else r.choice(bands)
        if bad in ("noband", "noqa"):
            os.unlink(p)
        elif bad in ("garbageband", "garbageqa"):
            self.garbage(p)
        elif bad in ("cutband", "cutqa"):
            b = open(p, "rb").read()
            for n in (r.randrange(1, len(b)), len(b) // 2, 50, 3):
                open(p, "wb").write(b[:n])
                if unreadable(p):
                    break
            if r.random() < 0.2:
                open(p, "wb").close()
        elif bad in ("smallband", "smallqa"):
            ds = gdal.Open(p)
            a, t = ds.ReadAsArray(), ds.GetRasterBand(1).DataType
            del ds
            tif(p, cut(a), t, self.geo, self.proj)
        elif bad in ("deepband", "deepqa"):
            ds = gdal.Open(p)
            a, t = ds.ReadAsArray(), ds.GetRasterBand(1).DataType
            del ds
            ds = gdal.GetDriverByName("GTiff").Create(p, a.shape[1], a.shape[0], 3, t)
            ds.SetGeoTransform(self.geo)
            ds.SetProjection(self.proj)
            for k in range(3):
                ds.GetRasterBand(k + 1).WriteArray(a)
            ds.FlushCache()
            del ds

    def first(self, few):
        """the source folder as it was before the latest scenes arrived; returns the case of that time"""
        c = copy.copy(self)
        c.scenes = [self.scenes[k] for k in few]
        for k, s in enumerate(self.scenes):
            if k not in few:
                for f in s["files"]:
                    os.makedirs(os.path.dirname(self.root + "/later/" + f), exist_ok=True)
                    os.rename(self.src + "/" + f, self.root + "/later/" + f)
        return c

    def arrive(self):
        """all scenes are there"""
        for s in self.scenes:
            for f in s["files"]:
                if os.path.lexists(self.root + "/later/" + f):
                    os.rename(self.root + "/later/" + f, self.src + "/" + f)

    def fingerprint(self):
        out = {}
        for dp, dn, fn in os.walk(self.src):
            for f in fn:
                p = os.path.join(dp, f)
                out[p[len(self.src):]] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        return out

    # ------------------------------------------------------------------ oracle
    def eligible(self, scn):
        lo = dt.date.fromisoformat(scn["low"]).toordinal() if scn.get("low") else None
        hi = dt.date.fromisoformat(scn["upp"]).toordinal() if scn.get("upp") else None
        single = scn["single"] and self.pathmap is not None
        for s in self.scenes:
            b = s["bad"]
            if b and b != "allfill" and not (b in ("noxml", "badxml", "nowrs", "nopath") and not single):
                continue
            q = s["codes"]
            if scn["clear"] > 0:
                n = int((q != FILL).sum())
                if n == 0 or not int(((q == CLEAR) | (q == WATER)).sum()) / n > scn["clear"]:
                    continue
            if lo is not None and s["date"] < lo or hi is not None and s["date"] > hi:
                continue
            e = s["exp"]
            if single:
                e = e.copy()
                e[:, :, 7][self.pathmap != s["path"]] = FILL
            yield s, e

    def expected(self, scn):
        """{block or None: [(date, sensor, array)]} sorted"""
        out = {b: [] for b in self.blocks} if scn["part"] else {None: []}
        for s, e in self.eligible(scn):
            if not scn["part"]:
                out[None].append((s["date"], s["sensor"], e))
                continue
            for x, y in self.blocks:
                a = e[(y - 1) * self.bh:y * self.bh, (x - 1) * self.bw:x * self.bw]
                if np.isin(a[:, :, 7], USABLE).any():
                    out[(x, y)].append((s["date"], s["sensor"], a))
        return {k: sorted(v, key=lambda t: t[:2]) for k, v in out.items()}

    def dates(self, scn):
        d = [s["date"] for s in self.scenes]
        lo, hi = min(d), max(d)
        if scn.get("low"):
            lo = max(lo, dt.date.fromisoformat(scn["low"]).toordinal())
        if scn.get("upp"):
            hi = min(hi, dt.date.fromisoformat(scn["upp"]).toordinal())
        return lo, hi


class Entry:
    def __init__(self, args):
        self.args = args

    def __call__(self):
        from pycold.imagetool import prepare_ard
        prepare_ard.main.main(self.args, prog_name="prepare_ard", standalone_mode=False)


def cli(case, scn, rank):
    r = case.root
    a = ["--source_dir", r + "/src", "--out_dir", r + "/out", "--clear_threshold", str(scn["clear"]), "--single_path", str(scn["single"]),
         "--rank", str(rank), "--n_cores", str(scn["n_cores"]), "--is_partition" if scn["part"] else "--continuous",
         "--yaml_path", r + "/cfg.yaml", "--hpc" if scn["hpc"] else "--dhtc", "--collection", case.coll]
    if scn.get("low"):
        a += ["--low_date_bound", scn["low"]]
    if scn.get("upp"):
        a += ["--upp_date_bound", scn["upp"]]
    if case.coll == "C2":
        a += ["--shapefile_path", r + "/grid.shp", "--id", "7"]
    return a


GATE = "starting_last_dates.txt"
PATHS = "singlepath_landsat_tile.tif"


class Ready:
    """once the stack is announced as ready, its folders, dates and path map are complete, at every instant"""

    def __init__(self, case, scn, before=None):
        self.c, self.s, self.on, self.checks, self.bad, self.before = case, scn, False, 0, False, before

    def __call__(self, sim, n, kind, path):
        o = self.c.root + "/out/"
        names = [path, getattr(sim, "last_arg", None) if kind == "rename" else None]
        if self.bad:
            return
        if not self.on:
            if not os.path.exists(o + GATE):
                return
            self.on = True
        elif not any(isinstance(x, str) and (x.endswith(GATE) or x.endswith(PATHS)) and x.startswith("out/") for x in names) and kind != "kill":
            return
        self.checks += 1
        t = self.judge(o)
        if t:
            self.bad = True
            sim.violate("gate", "the stack is announced as ready but %s (after %s of %s by worker %d)" % (t, kind, path, n.rank))

    def judge(self, o):
        t = check_dates(self.c, self.s)
        if t and not (self.before is not None and check_dates(self.before, self.s) is None):
            return t
        if self.s["part"]:
            for b in self.c.blocks:
                if not os.path.isdir(o + "block_x%d_y%d" % b):
                    return "the folder of block %s does not exist" % (b,)
        if self.c.pathmap is not None and self.s["hpc"]:
            from osgeo import gdal
            try:
                ds = gdal.Open(o + PATHS)
                a = ds.ReadAsArray()
            except Exception:
                a = None
            if a is None or a.shape != self.c.pathmap.shape or not (a == self.c.pathmap).all():
                return "its single-path map is incomplete"


def check_dates(case, scn):
    try:
        got = open(case.root + "/out/" + GATE).read().split()
    except OSError:
        return "the first and last date are missing"
    want = case.dates(scn)
    if got != [str(v) for v in want]:
        return "the recorded first and last dates are %s instead of %s" % (got, list(want))


def check(case, scn, io_errors):
    bad = []
    o = case.root + "/out"
    t = check_dates(case, scn)
    if t:
        bad.append(("dates", t))
    exp = case.expected(scn)
    known = {GATE, PATHS} | {"rank%d_finished.txt" % (k + 1) for k in range(scn["n_cores"])}
    tol = 1 if case.coll in ("C2", "ARD-C2") else 0
    for b, want in sorted(exp.items(), key=lambda t: str(t[0])):
        d = o if b is None else o + "/block_x%d_y%d" % b
        where = "the stack" if b is None else "block %s" % (b,)
        if not os.path.isdir(d):
            bad.append(("content", "the folder of %s is missing" % where))
            continue
        got = []
        for f in sorted(os.listdir(d)):
            if b is None and (f in known or not f.endswith(".npy")):
                continue
            try:
                j = f[9:16]
                day = dt.date(int(j[:4]), 1, 1).toordinal() + int(j[4:]) - 1
                assert f.endswith(".npy")
            except Exception:
                bad.append(("extra", "%s holds %r" % (where, f)))
                continue
            try:
                a = np.load(os.path.join(d, f))
            except Exception as e:
                bad.append(("content", "%s: %s is unreadable (%s)" % (where, f, type(e).__name__)))
                continue
            got.append((day, f[:3], a, f))
        gk, wk = sorted(x[:2] for x in got), [x[:2] for x in want]
        for k in sorted(set(gk) | set(wk)):
            if gk.count(k) != wk.count(k):
                bad.append(("content", "%s holds %d files instead of %d of sensor %s of %s" % (where, gk.count(k), wk.count(k), k[1], ymd(k[0]))))
        for day, s, e in want:
            for _, _, a, f in [x for x in got if x[:2] == (day, s)]:
                if a.shape != e.shape or a.dtype != np.int16:
                    bad.append(("content", "%s: %s has shape %s of %s" % (where, f, a.shape, a.dtype)))
                    continue
                t = np.full(8, tol)
                t[7] = 0
                w = np.argwhere(np.abs(a.astype(np.int64) - e) > t)
                if len(w):
                    i, j, k = w[0]
                    bad.append(("content", "%s: %s differs at %d values, first (row %d, col %d, band %d): %d instead of %d" % (
                        where, f, len(w), i, j, k, a[i, j, k], e[i, j, k])))
    if not io_errors:
        left = [f for f in sorted(os.listdir(o)) if f not in known and not (f.startswith("block_x") and scn["part"]) and not (not scn["part"] and f.endswith(".npy"))]
        if left:
            bad.append(("extra", "the stack folder holds %s" % left[:3]))
    return bad[:6]


def run(scn, scratch, plan=None, log=None):
    case = Case.get(scratch, scn["data"])
    scn = scen.bounds(scn, [s["date"] for s in case.scenes])
    shutil.rmtree(case.root + "/out", ignore_errors=True)
    case.arrive()
    out = Result()
    shared, dig, sched = core.Plan(), hashlib.sha256(), hashlib.sha256()
    fg = faults.FaultGen(scn["seed"], scn["faults"]) if scn.get("faults") and plan is None else None
    grown = scn.get("grown")
    runs = ([(case.first(grown["first"]), grown["n_cores"])] if grown else []) + [(case, scn["n_cores"])]
    step, before, errs, tot, checks = 0, None, 0, {}, 0
    for k, (c, cores) in enumerate(runs):
        if c is case:
            case.arrive()
        s = dict(scn, n_cores=cores)
        inv = Ready(c, s, before)
        entries = {r: Entry(cli(case, s, r)) for r in range(1, cores + 1)}
        sim = new_sim(dict(s, seed=scn["seed"] if c is case else scn["seed"] + "-first", faults=None), case.root, entries, plan, invariant=inv, log=log,
                      inc0=100 * k, step0=step)
        sim.faultgen = fg
        sim.plan = shared
        sim.max_steps += step
        sim.run()
        step = sim.step + 1
        dig.update(sim.trace.digest())
        sched.update(sim.sched_hash.digest())
        for v in sim.violations:
            if (v[0], v[1]) not in out.violations:
                out.violations.append((v[0], v[1]))
        finish(out, sim)
        for a in list(sim.counts) + ["sim_s", "spawned"]:
            tot[a] = tot.get(a, 0) + (out.stats[a] - (100 * k * len(entries) if a == "spawned" else 0))
        for r, e in sorted(sim.failed().items()):
            out.violations.append(("fail", "worker %d ended with an error: %s" % (r, e[2])))
        errs += sim.ioerrs
        checks += inv.checks
        if sim.all_done():
            out.violations += check(c, dict(s, n_cores=max(q for _, q in runs[:k + 1])), errs)
        if out.violations or not sim.all_done():
            break
        before = c
    case.arrive()
    out.plan = shared
    out.stats.update(tot)
    out.stats["switches"] = len(shared.switches)
    out.sched = sched.hexdigest()[:16]
    if case.fingerprint() != case.inputs:
        out.violations.append(("input", "the job changed its source scenes"))
    out.stats.update(invariant_checks=checks, scenes=len(case.scenes), bad_scenes=sum(1 for s in case.scenes if s["bad"]))
    for s in case.scenes:
        if s["bad"]:
            out.stats["fault_scene_" + s["bad"]] = out.stats.get("fault_scene_" + s["bad"], 0) + 1
    if grown:
        out.stats["grown"] = 1
    h = hashlib.sha256(dig.digest())
    h.update(repr(sorted(set(out.violations))).encode())
    out.digest = h.hexdigest()
    return out


def baseline(scn):
    """the same job on intact scenes without faults"""
    s = json.loads(json.dumps(scn))
    s["faults"] = {}
    s["data"]["bad"] = []
    return s


def setup(snap, scratch):
    import pycold.imagetool.prepare_ard, pycold, fiona   # noqa
    assert os.path.realpath(pycold.__file__).startswith(os.path.realpath(snap)), pycold.__file__
