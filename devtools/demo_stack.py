"""Makes a small folder of HLS or Landsat ARD scenes and runs the workers of a stacking job (helper of the demonstrations)."""
import datetime as dt, os, shutil, sys, tarfile, tempfile, time, traceback
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(os.getcwd(), "src/python"))
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import numpy as np
from osgeo import gdal, osr

CLEAR, WATER, SHADOW, SNOW, CLOUD, FILL = 0, 1, 2, 3, 4, 255
HLSBITS = {CLEAR: 0, WATER: 32, SHADOW: 8, SNOW: 16, CLOUD: 2, FILL: 255}
C1BITS = {CLEAR: 2, WATER: 4, SHADOW: 8, SNOW: 16, CLOUD: 32, FILL: 1}


def tif(path, a, t):
    ds = gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], 1, t)
    ds.SetGeoTransform((399960.0, 30.0, 0.0, 4400040.0, 0.0, -30.0))
    s = osr.SpatialReference()
    s.ImportFromEPSG(32618)
    ds.SetProjection(s.ExportToWkt())
    ds.GetRasterBand(1).WriteArray(a)
    ds.FlushCache()


class Stack:
    def __init__(self, collection="HLS", rows=4, cols=4, nbx=2, nby=2, seed=1):
        self.c, self.rows, self.cols = collection, rows, cols
        self.root = tempfile.mkdtemp(prefix="demo-")
        self.src, self.out, self.cfg = self.root + "/src", self.root + "/out", self.root + "/cfg.yaml"
        os.mkdir(self.src)
        self.rng = np.random.default_rng(seed)
        open(self.cfg, "w").write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n" % (rows, cols, nbx, nby))

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def scene(self, day, q=None, sensor="L30", bits=None):
        """one scene; q: quality codes (default all clear); returns its folder (HLS) or tar file"""
        q = np.zeros((self.rows, self.cols), int) if q is None else np.asarray(q)
        b = [self.rng.integers(1, 5000, q.shape) for k in range(7)]
        if self.c == "HLS":
            nm = "HLS.%s.T18TYM.%04d%03dT153919.v2.0" % (sensor, day.year, day.timetuple().tm_yday)
            os.mkdir(self.src + "/" + nm)
            for k, x in enumerate(["B02", "B03", "B04", "B05", "B06", "B07"] if sensor == "L30" else ["B02", "B03", "B04", "B8A", "B11", "B12"]):
                tif("%s/%s/%s.%s.tif" % (self.src, nm, nm, x), b[k], gdal.GDT_Int16)
            raw = np.vectorize(HLSBITS.get)(q) if bits is None else bits
            tif("%s/%s/%s.Fmask.tif" % (self.src, nm, nm), raw, gdal.GDT_Byte)
            return self.src + "/" + nm
        base = "LT05_CU_019007_%s_20190101_C01_V01" % day.strftime("%Y%m%d")
        T = self.root + "/mk"
        os.mkdir(T)
        for k, x in enumerate([1, 2, 3, 4, 5, 7]):
            tif("%s/%s_SRB%d.tif" % (T, base, x), b[k], gdal.GDT_Int16)
        tif("%s/%s_PIXELQA.tif" % (T, base), np.vectorize(C1BITS.get)(q) if bits is None else bits, gdal.GDT_UInt16)
        open("%s/%s.xml" % (T, base), "w").write(
            '<ard_metadata xmlns="https://landsat.usgs.gov/ard/v1"><scene_metadata><global_metadata>'
            '<wrs system="2" path="19" row="27"/></global_metadata></scene_metadata></ard_metadata>')
        for t in ("SR", "BT"):
            if t == "BT":
                shutil.rmtree(T)
                os.mkdir(T)
                tif("%s/%s_BTB6.tif" % (T, base), b[6], gdal.GDT_Int16)
            with tarfile.open("%s/%s_%s.tar" % (self.src, base, t), "w") as f:
                for x in sorted(os.listdir(T)):
                    f.add(T + "/" + x, x)
        shutil.rmtree(T)
        return "%s/%s_SR.tar" % (self.src, base)

    def start(self, rank, cores, hook=None, extra=()):
        import pycold.imagetool.prepare_ard as pa
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            return pid
        code = 1
        try:
            os.makedirs(self.root + "/cwd%d" % rank, exist_ok=True)
            os.chdir(self.root + "/cwd%d" % rank)
            n = os.open(self.root + "/log%d.txt" % rank, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(n, 1)
            os.dup2(n, 2)
            real = time.sleep
            time.sleep = lambda s: real(0.02)
            if hook:
                hook(pa)
            args = ["--rank", str(rank), "--n_cores", str(cores), "--source_dir", self.src, "--out_dir", self.out,
                    "--yaml_path", self.cfg, "--collection", self.c]
            if self.c != "HLS":
                args += ["--dhtc", "--single_path", "False"]
            pa.main.main(args + list(extra), standalone_mode=False)
            code = 0
        except SystemExit as e:
            code = 0 if e.code in (None, 0) else 2
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(code)

    def wait(self, pid, timeout=60):
        t = time.time()
        while time.time() - t < timeout:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return os.waitstatus_to_exitcode(st)
            time.sleep(0.02)
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        return "timeout"

    def run(self, *a, **k):
        return self.wait(self.start(*a, **k))

    def job(self, cores, hooks={}, extra=()):
        p = {r: self.start(r, cores, hooks.get(r), extra) for r in range(1, cores + 1)}
        return {r: self.wait(p[r]) for r in p}

    def files(self):
        out = {}
        for dp, dn, fn in os.walk(self.out):
            for f in fn:
                if f.endswith(".npy") or f == "starting_last_dates.txt":
                    p = os.path.join(dp, f)
                    out[p[len(self.out) + 1:]] = open(p, "rb").read()
        return out


def pause(s):
    import select
    select.select([], [], [], s)


def check(ok, text):
    if not ok:
        print("FAIL: " + text)
        sys.exit(1)
