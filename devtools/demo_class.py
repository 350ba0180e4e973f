"""Land-cover classification of a small tile from hand-made records, in one or several processes (helper of the demonstrations)."""
import datetime as dt, logging, os, shutil, sys, tempfile, time, traceback
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(os.getcwd(), "src/python"))
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import numpy as np
from osgeo import gdal

COLD = np.dtype([("t_start", np.int32), ("t_end", np.int32), ("t_break", np.int32), ("pos", np.int32), ("num_obs", np.int32),
                 ("category", np.short), ("change_prob", np.short), ("coefs", np.float32, (7, 8)), ("rmse", np.float32, 7),
                 ("magnitude", np.float32, 7)])


def day(y, m=1, d=1):
    return dt.date(y, m, d).toordinal()


def seg(pos, t0, t1, tb=0, level=0.0):
    a = np.zeros(1, COLD)[0]
    a["t_start"], a["t_end"], a["t_break"], a["pos"], a["num_obs"] = t0, t1, tb, pos, 40
    a["change_prob"] = 100 if tb else 0
    a["coefs"][:, 0] = level
    return a


class Class:
    """class k of the seed map <-> records of level 1000 * k"""
    def __init__(self, rows=4, cols=4, nbx=2, nby=2, years=(2001, 2002), ref=2001):
        from pycold.common import DatasetInfo
        self.rows, self.cols, self.nbx, self.nby, self.years, self.ref = rows, cols, nbx, nby, list(years), ref
        self.info = DatasetInfo(rows, cols, nbx, nby)
        self.root = tempfile.mkdtemp(prefix="demo-")
        self.rec = self.root + "/rec"
        os.mkdir(self.rec)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def pos(self, i, j):
        return self.cols * i + j + 1

    def put(self, records):
        bw, bh = self.cols // self.nbx, self.rows // self.nby
        for y in range(self.nby):
            for x in range(self.nbx):
                r = [a for a in records if ((a["pos"] - 1) % self.cols) // bw == x and ((a["pos"] - 1) // self.cols) // bh == y]
                if r:
                    np.save("%s/record_change_x%d_y%d_cold.npy" % (self.rec, x + 1, y + 1), np.array(r, COLD))

    def seed(self, a):
        ds = gdal.GetDriverByName("GTiff").Create(self.root + "/seed.tif", self.cols, self.rows, 1, gdal.GDT_Byte)
        ds.GetRasterBand(1).WriteArray(np.asarray(a, np.uint8))
        ds.FlushCache()

    def worker(self, rank, cores, hook=None):
        """the classification part of one worker of a tile job"""
        from pycold.pyclassifier import PyClassifierHPC
        log = logging.getLogger("demo")
        log.setLevel(logging.CRITICAL)
        real = time.sleep
        time.sleep = lambda s: real(0.02)
        c = PyClassifierHPC(self.info, record_path=self.rec, year_list_to_predict=self.years, seedmap_path=self.root + "/seed.tif", logger=log)
        if hook:
            hook(c)
        if rank == 1:
            c.hpc_preparation()
        while not os.path.isdir(self.rec + "/feature_maps"):
            time.sleep(5)
        mine = [b for b in range(1, self.info.nblocks + 1) if (b - 1) % cores == rank - 1]
        done = lambda what, b: os.path.exists("%s/feature_maps/tmp_%s_%d_finished.txt" % (self.rec, what, b))
        for b in mine:
            if not done("step1_predict", b):
                c.step1_feature_generation(block_id=b)
        if rank == 1:
            c.step2_train_rf(ref_year=self.ref)
        for b in mine:
            if not done("step3_classification", b):
                c.step3_classification(block_id=b)
        if rank == 1:
            c.step4_assemble()
        time.sleep = real

    def start(self, rank, cores, hook=None):
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            return pid
        code = 1
        try:
            self.worker(rank, cores, hook)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)

    def wait(self, pids, limit=60):
        ok, t0 = True, time.time()
        for p in pids:
            while True:
                r, st = os.waitpid(p, os.WNOHANG)
                if r:
                    ok = ok and st == 0
                    break
                if time.time() - t0 > limit:
                    os.kill(p, 9)
                    os.waitpid(p, 0)
                    ok = False
                    break
                time.sleep(0.02)
        return ok

    def map(self, year):
        p = "%s/feature_maps/yearlyclassification_%d.npy" % (self.rec, year)
        return np.load(p) if os.path.exists(p) else None


def check(ok, text):
    if not ok:
        print("FAIL: " + text)
        sys.exit(1)
