"""Makes a small tile and runs the workers of a tile job as separate processes (helper of the demonstrations)."""
import datetime as dt, os, shutil, sys, tempfile, time, traceback
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(os.getcwd(), "src/python"))
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import numpy as np

T0 = dt.date(2000, 1, 1).toordinal()


class Tile:
    def __init__(self, rows=4, cols=4, nbx=2, nby=2, n=80, step=14, seed=1, interval=90, conse=6, skip=(), quiet=True):
        self.rows, self.cols, self.nbx, self.nby = rows, cols, nbx, nby
        self.bw, self.bh = cols // nbx, rows // nby
        self.root = tempfile.mkdtemp(prefix="demo-")
        rng = np.random.default_rng(seed)
        self.dates = T0 + np.arange(n) * step
        t = self.dates - T0
        base = np.array([400, 600, 700, 2500, 1800, 1000, 2900.0])
        X = np.empty((n, rows, cols, 8), np.int16)
        for r in range(rows):
            for c in range(cols):
                y = base * rng.uniform(0.8, 1.2) + 0.1 * base * np.cos(2 * np.pi * t / 365.25)[:, None] + rng.normal(0, 25, (n, 7))
                if (r + c) % 3:
                    y[int(n * (0.5 + 0.03 * r)):, :6] += 1.5 * np.array([300, 400, 600, -900, 900, 900])
                X[:, r, c, :7] = np.round(y)
                X[:, r, c, 7] = 0
        self.X = X
        self.stack, self.res = self.root + "/stack", self.root + "/res"
        os.mkdir(self.stack)
        for y in range(1, nby + 1):
            for x in range(1, nbx + 1):
                d = self.stack + "/block_x%d_y%d" % (x, y)
                os.mkdir(d)
                if (x, y) in skip:
                    continue
                for i, o in enumerate(self.dates):
                    D = dt.date.fromordinal(int(o))
                    np.save(d + "/L30T18TYM%04d%03dHLSv2.npy" % (D.year, D.timetuple().tm_yday),
                            np.ascontiguousarray(X[i, (y - 1) * self.bh:y * self.bh, (x - 1) * self.bw:x * self.bw]))
        open(self.stack + "/starting_last_dates.txt", "w").write("%d\n%d\n" % (self.dates[0], self.dates[-1]))
        self.cfg = self.root + "/cfg.yaml"
        open(self.cfg, "w").write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n"
                                  "ALGORITHMINFO:\n  conse: %d\n  CM_OUTPUT_INTERVAL: %d\n  probability_threshold: 0.99\n"
                                  % (rows, cols, nbx, nby, conse, interval))

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def start(self, rank, cores, method="COLD", hook=None, extra=()):
        """start one worker; returns its pid"""
        import pycold.imagetool.tile_processing as tp
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            return pid
        code = 1
        try:
            os.chdir(self.root)
            n = os.open(self.root + "/log%d.txt" % rank, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(n, 1)
            os.dup2(n, 2)
            real = time.sleep
            time.sleep = lambda s: real(0.02)
            if hook:
                hook(tp)
            tp.main.main(["--rank", str(rank), "--n_cores", str(cores), "--stack_path", self.stack, "--result_path", self.res,
                          "--yaml_path", self.cfg, "--method", method, *extra], standalone_mode=False)
            code = 0
        except SystemExit as e:
            code = 0 if e.code in (None, 0) else 2
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(code)

    def wait(self, pid, timeout=60):
        t = time.time()
        while time.time() - t < timeout:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return os.waitstatus_to_exitcode(st)
            time.sleep(0.02)
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        return "timeout"

    def run(self, *a, **k):
        return self.wait(self.start(*a, **k))

    def job(self, cores, method="COLD", hooks={}, order=None, extra=()):
        """all workers at once"""
        p = {r: self.start(r, cores, method, hooks.get(r), extra) for r in (order or range(1, cores + 1))}
        return {r: self.wait(p[r]) for r in p}

    def files(self):
        out = {}
        for dp, dn, fn in os.walk(self.res):
            for f in fn:
                if f.endswith(".npy"):
                    p = os.path.join(dp, f)
                    out[p[len(self.res) + 1:]] = open(p, "rb").read()
        return out


def crash_in(name, match, when="before", nth=1):
    """hook: the process dies at the nth call of np.save / open whose path contains `match`"""
    def hook(tp):
        import builtins
        n = [0]
        if name == "save":
            real = np.save

            def f(file, arr, *a, **k):
                if match in str(getattr(file, "name", file)):
                    n[0] += 1
                    if n[0] == nth:
                        if when == "after":
                            real(file, arr, *a, **k)
                        elif when == "torn":
                            real(file, arr, *a, **k)
                            with open(file, "r+b") as g:
                                g.truncate(40)
                        os._exit(9)
                return real(file, arr, *a, **k)
            np.save = f
        else:
            real = builtins.open

            def g(file, mode="r", *a, **k):
                if match in str(file) and "w" in mode:
                    n[0] += 1
                    if n[0] == nth:
                        if when == "after":
                            real(file, mode, *a, **k).close()
                        os._exit(9)
                return real(file, mode, *a, **k)
            builtins.open = g
    return hook


def check(ok, text):
    if not ok:
        print("FAIL: " + text)
        sys.exit(1)
