"""Runs the map export with several processes on small, hand-made record files (helper of the demonstrations)."""
import datetime as dt, multiprocessing as mp, os, shutil, sys, tempfile, time, types, traceback
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(os.getcwd(), "src/python"))
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import numpy as np
from osgeo import gdal, osr

COLD = np.dtype([("t_start", np.int32), ("t_end", np.int32), ("t_break", np.int32), ("pos", np.int32), ("num_obs", np.int32),
                 ("category", np.short), ("change_prob", np.short), ("coefs", np.float32, (7, 8)), ("rmse", np.float32, 7),
                 ("magnitude", np.float32, 7)])


def day(y, m=1, d=1):
    return dt.date(y, m, d).toordinal()


def seg(pos, t0, t1, tb=0, mag=(0, 0, 0, -900, 0, 0, 0), prob=None, base=0.0, coefs=None):
    a = np.zeros(1, COLD)[0]
    a["t_start"], a["t_end"], a["t_break"], a["pos"], a["num_obs"] = t0, t1, tb, pos, 40
    a["category"], a["change_prob"] = 6, (100 if tb else 0) if prob is None else prob
    a["coefs"] = np.arange(56).reshape(7, 8) + base if coefs is None else coefs
    a["rmse"], a["magnitude"] = np.arange(7) + base + 0.5, mag
    return a


class Comm:
    """the collective operations the export uses, over forked processes"""
    def __init__(self, n):
        self.n, self.bar, self.qs, self.rank = n, mp.Barrier(n), [mp.Queue() for k in range(n)], 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.n

    def bcast(self, obj, root=0):
        if self.rank == root:
            for k in range(self.n):
                if k != root:
                    self.qs[k].put(obj)
            return obj
        return self.qs[self.rank].get()

    def Barrier(self):
        self.bar.wait(60)
    barrier = Barrier

    def __getattr__(self, n):
        raise AttributeError("MPI operation %s" % n)


class Export:
    def __init__(self, rows=4, cols=4, nbx=2, nby=2, method="COLD"):
        self.rows, self.cols, self.nbx, self.nby, self.m = rows, cols, nbx, nby, method
        self.root = tempfile.mkdtemp(prefix="demo-")
        self.rec = self.root + "/rec"
        os.makedirs(self.rec + ("/obcold" if method == "OBCOLD" else ""))
        open(self.root + "/cfg.yaml", "w").write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n" % (rows, cols, nbx, nby))
        ds = gdal.GetDriverByName("GTiff").Create(self.root + "/ref.tif", cols, rows, 1, gdal.GDT_Int16)
        ds.SetGeoTransform((399960.0, 30.0, 0.0, 4400040.0, 0.0, -30.0))
        s = osr.SpatialReference()
        s.ImportFromEPSG(32618)
        ds.SetProjection(s.ExportToWkt())
        ds.FlushCache()

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def pos(self, i, j):
        return self.cols * i + j + 1

    def put(self, records):
        """records: list of seg(); one file per block"""
        bw, bh = self.cols // self.nbx, self.rows // self.nby
        for y in range(self.nby):
            for x in range(self.nbx):
                r = [a for a in records if ((a["pos"] - 1) % self.cols) // bw == x and ((a["pos"] - 1) // self.cols) // bh == y]
                np.save("%s%s/record_change_x%d_y%d_%s.npy" % (self.rec, "/obcold" if self.m == "OBCOLD" else "", x + 1, y + 1, self.m.lower()),
                        np.array(r, COLD))

    def run(self, n, lo, hi, coefs=None, bands=None, slow=None, limit=90):
        """slow: {rank: seconds slept before every np.save}; False when a process fails"""
        shutil.rmtree(self.root + "/out", ignore_errors=True)
        comm = Comm(n)

        def go(rank):
            comm.rank = rank
            pkg, mpi = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
            mpi.COMM_WORLD, mpi.Finalize, pkg.MPI, pkg.__path__ = comm, lambda: None, mpi, []
            sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, mpi
            out = open(os.devnull, "w")
            os.dup2(out.fileno(), 1)
            if slow and rank in slow:
                real = np.save

                def f(*a, **k):
                    time.sleep(slow[rank])
                    return real(*a, **k)
                np.save = f
            from pycold.imagetool import export_change_map as e
            a = ["--reccg_path", self.rec, "--reference_path", self.root + "/ref.tif", "--out_path", self.root + "/out",
                 "--method", self.m, "--yaml_path", self.root + "/cfg.yaml", "--year_lowbound", str(lo), "--year_uppbound", str(hi)]
            if coefs:
                a += ["--coefs", coefs] + (["--coefs_bands", bands] if bands else [])
            try:
                e.main.main(a, standalone_mode=False)
            except BaseException:
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        ps = [mp.get_context("fork").Process(target=go, args=(k,)) for k in range(n)]
        for p in ps:
            p.start()
        ok, t0 = True, time.time()
        for p in ps:
            p.join(max(0.1, limit - (time.time() - t0)))
            if p.is_alive():
                p.kill()
            ok = ok and p.exitcode == 0
        return ok

    def map(self, name):
        ds = gdal.Open("%s/out/%s_maps/%s_%s.tif" % (self.root, self.m.lower(), name, self.m) if "coefs" not in name else
                       "%s/out/%s_maps/%s.tif" % (self.root, self.m.lower(), name))
        return None if ds is None else ds.ReadAsArray()


def check(ok, text):
    if not ok:
        print("FAIL: " + text)
        sys.exit(1)
