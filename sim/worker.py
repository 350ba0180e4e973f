"""Runtime inside one simulated process: puts every storage, clock and randomness call of the code
under test behind the controller.  Installed after fork; the controller itself stays unpatched."""
import builtins, errno, io, marshal, os, random, signal, sys, time, datetime as _dtmod, types

_real = dict(open=builtins.open, os_open=os.open, stat=os.stat, lstat=os.lstat, listdir=os.listdir,
             scandir=os.scandir, mkdir=os.mkdir, rmdir=os.rmdir, unlink=os.unlink, remove=os.remove,
             rename=os.rename, replace=os.replace, truncate=os.truncate, ftruncate=os.ftruncate, utime=os.utime,
             access=os.access, write=os.write, read=os.read, close=os.close, fsync=os.fsync, link=os.link, symlink=os.symlink,
             sleep=time.sleep, time=time.time, getpid=os.getpid, urandom=os.urandom, kill=os.kill,
             lseek=os.lseek, fstat=os.fstat)
_real_datetime = _dtmod.datetime
MUTATING = {"open_w", "write", "mkdir", "unlink", "rename", "rmdir", "trunc", "link", "gdal_w"}

W = None  # the worker of this process


class Worker:
    def __init__(self, sock, root, rank, inc, seed, cfg):
        self.sock, self.root, self.rank, self.inc, self.cfg = sock, root.rstrip("/") + "/", rank, inc, cfg
        self.now = 0.0
        self.rng = random.Random("%s:%s:%s" % (seed, rank, inc))
        self.skip = tuple(self.root + p for p in cfg.get("passthrough", ()))
        self.fds = {}
        self.depth = 0
        self.bufsize = cfg.get("bufsize", 512)

    # -- path classification ------------------------------------------------------------
    def rel(self, p):
        """path relative to the simulated storage, or None when it is not part of it"""
        try:
            if isinstance(p, int) or p is None:
                return None
            p = os.fspath(p)
            if isinstance(p, bytes):
                p = p.decode()
        except TypeError:
            return None
        if not p.startswith("/") and self.root in p:      # a dataset inside a file, as GDAL names it
            return p.replace(self.root, "")
        if not p.startswith("/"):
            p = os.path.join(os.getcwd(), p)
        if "/../" in p or "//" in p or "/./" in p or p.endswith("/..") or p.endswith("/."):
            p = os.path.normpath(p)
        if not (p + "/").startswith(self.root):
            return None
        if self.skip and (p + "/").startswith(self.skip):
            return None
        return p[len(self.root):]

    # -- the seam -----------------------------------------------------------------------
    def op(self, kind, path="", arg=0):
        self.sock.send(marshal.dumps((kind, path, arg)))
        m = self.sock.recv(1 << 20)
        if not m:
            _real["kill"](_real["getpid"](), signal.SIGKILL)
        self.now, act, val = marshal.loads(m)
        if act == "go":
            return val
        if act == "kill":
            self.die()
        if act == "err":
            raise OSError(val, os.strerror(val), path)
        return act, val          # short / tear

    def die(self):
        _real["kill"](_real["getpid"](), signal.SIGKILL)
        while True:
            pass


class SimRaw(io.RawIOBase):
    """one open file; every write is an operation of the simulator"""

    def __init__(self, path, rel, fd, readable, writable, name):
        self._fd, self._rel, self._r, self._w = fd, rel, readable, writable
        self.name = name
        self.mode = "rb+" if readable and writable else "rb" if readable else "wb"

    def readable(self): return self._r
    def writable(self): return self._w
    def seekable(self): return True
    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd
    def isatty(self): return False

    def readinto(self, b):
        if W.cfg.get("read_yield"):
            W.op("read", self._rel)
        d = _real["read"](self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        b = bytes(b)
        n = len(b)
        r = W.op("write", self._rel, n)
        if isinstance(r, tuple):
            act, val = r
            k = max(0, min(n, val))
            o = 0
            while o < k:
                o += _real["write"](self._fd, b[o:k])
            if act == "tear":
                W.die()
            if k == 0:
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._rel)
            return k
        o = 0
        while o < n:
            o += _real["write"](self._fd, b[o:])
        return n

    def seek(self, off, wh=0): return _real["lseek"](self._fd, off, wh)
    def tell(self): return _real["lseek"](self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        W.op("trunc", self._rel, size)
        _real["ftruncate"](self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                fd, self._fd = self._fd, -1
                _real["close"](fd)
                if self._w:
                    W.op("close_w", self._rel)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    rel = W.rel(file)
    if rel is None or opener is not None:
        if isinstance(file, int) and file in W.fds and not isinstance(file, bool):
            rel = W.fds[file]
            raw = SimRaw(None, rel, file, "r" in mode or "+" in mode, "r" not in mode or "+" in mode, file)
            return _wrap(raw, mode, buffering, encoding, errors, newline)
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    if len(m & set("rwxa")) != 1:
        return _real["open"](file, mode, buffering, encoding, errors, newline)
    upd = "+" in m
    if "r" in m:
        flags = os.O_RDWR if upd else os.O_RDONLY
    else:
        flags = (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT
        flags |= os.O_TRUNC if "w" in m else os.O_EXCL if "x" in m else os.O_APPEND
    W.op("open_r" if m & {"r"} and not upd else "open_w", rel, mode.replace("b", "").replace("t", ""))
    fd = _real["os_open"](file, flags | os.O_CLOEXEC, 0o666)
    import stat as _st
    if _st.S_ISDIR(_real["fstat"](fd).st_mode):
        _real["close"](fd)
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), os.fspath(file))
    if "a" in m:
        _real["lseek"](fd, 0, 2)
    raw = SimRaw(file, rel, fd, "r" in m or upd, "r" not in m or upd, file)
    return _wrap(raw, mode, buffering, encoding, errors, newline)


def _wrap(raw, mode, buffering, encoding, errors, newline):
    binary = "b" in mode
    line = False
    if buffering == 1 and not binary:
        buffering, line = -1, True
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if buffering < 0:
        buffering = W.bufsize if raw._w else 65536
    buf = (io.BufferedRandom if raw._r and raw._w else io.BufferedWriter if raw._w else io.BufferedReader)(raw, max(buffering, 1))
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
    t.mode = mode
    return t


def _p1(kind, name, mut=True):
    real = _real[name]

    def f(path, *a, **k):
        rel = W.rel(path) if k.get("dir_fd") is None else None
        if rel is not None:
            W.op(kind, rel)
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _p2(name):
    real = _real[name]

    def f(src, dst, *a, **k):
        rs, rd = W.rel(src), W.rel(dst)
        if rs is not None or rd is not None:
            W.op("rename" if name in ("rename", "replace") else "link", rs or "-", rd or "-")
        return real(src, dst, *a, **k)
    f.__name__ = name
    return f


def _order(names, key=lambda x: x):
    names.sort(key=key)
    o = W.cfg.get("list_order", "sorted")
    if o == "reverse":
        names.reverse()
    elif o == "shuffle":
        W.rng.shuffle(names)
    elif o == "rank":
        random.Random("%s/%s" % (W.cfg.get("order_seed"), W.rank)).shuffle(names)
    elif o == "fixed":
        random.Random("%s" % (W.cfg.get("order_seed"),)).shuffle(names)
    return names


def sim_listdir(path="."):
    rel = W.rel(path)
    if rel is None:
        return _real["listdir"](path)
    W.op("list", rel)
    return _order(_real["listdir"](path))


class _Scan:
    def __init__(self, l): self.l = iter(l)
    def __iter__(self): return self
    def __next__(self): return next(self.l)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.l = iter(())


def sim_scandir(path="."):
    rel = W.rel(path)
    if rel is None:
        return _real["scandir"](path)
    W.op("list", rel)
    with _real["scandir"](path) as it:
        return _Scan(_order(list(it), key=lambda e: e.name))


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    rel = W.rel(path) if dir_fd is None else None
    if rel is None:
        return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    W.op("open_w" if w else "open_r", rel, "os")
    fd = _real["os_open"](path, flags, mode)
    if w:
        W.fds[fd] = rel
    return fd


def sim_os_write(fd, b):
    rel = W.fds.get(fd)
    if rel is None:
        return _real["write"](fd, b)
    b = bytes(b)
    r = W.op("write", rel, len(b))
    if isinstance(r, tuple):
        act, val = r
        k = max(0, min(len(b), val))
        if k:
            _real["write"](fd, b[:k])
        if act == "tear":
            W.die()
        if k == 0:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
        return k
    return _real["write"](fd, b)


def sim_os_close(fd):
    W.fds.pop(fd, None)
    return _real["close"](fd)


def sim_sleep(s):
    W.op("sleep", "", float(s))


def _epoch():
    return 1600000000.0 + W.now + W.cfg.get("skew", {}).get(W.rank, 0.0)


class SimDatetime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        d = _real_datetime.fromtimestamp(_epoch(), _dtmod.timezone.utc)
        if tz is None:
            return _real_datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
        return d.astimezone(tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


class _Meta(type):
    def __instancecheck__(c, o): return isinstance(o, _real_datetime)
    def __subclasscheck__(c, s): return issubclass(s, _real_datetime)


class DatetimeShim(metaclass=_Meta):
    """stands for the datetime class in the code under test; only the clock readings differ"""
    def __new__(cls, *a, **k): return _real_datetime(*a, **k)


for _n in dir(_real_datetime):
    if not _n.startswith("__"):
        setattr(DatetimeShim, _n, getattr(_real_datetime, _n))
DatetimeShim.now = SimDatetime.now
DatetimeShim.utcnow = SimDatetime.utcnow
DatetimeShim.today = SimDatetime.today


class _DMeta(type):
    def __instancecheck__(c, o): return isinstance(o, _dtmod.date)
    def __subclasscheck__(c, s): return issubclass(s, _dtmod.date)


class DateShim(metaclass=_DMeta):
    def __new__(cls, *a, **k): return _dtmod.date(*a, **k)


for _n in dir(_dtmod.date):
    if not _n.startswith("__"):
        setattr(DateShim, _n, getattr(_dtmod.date, _n))


def _today():
    d = SimDatetime.now()
    return _dtmod.date(d.year, d.month, d.day)


DateShim.today = _today


def _coverage(path):
    """development aid: append every executed line of the package to a file"""
    m, fd, wr = sys.monitoring, _real["os_open"](path, os.O_WRONLY | os.O_CREAT | os.O_APPEND), _real["write"]
    m.use_tool_id(1, "cov")

    def line(code, n):
        if "/pycold/" in code.co_filename:
            wr(fd, ("%s:%d\n" % (code.co_filename.split("/pycold/")[-1], n)).encode())
        return m.DISABLE
    m.register_callback(1, m.events.LINE, line)
    m.set_events(1, m.events.LINE)


def install(worker):
    global W
    W = worker
    if os.environ.get("SIM_COVERAGE"):
        _coverage(os.environ["SIM_COVERAGE"])
    import numpy.lib.format as nf, shutil, tarfile, tempfile, glob, genericpath
    import numpy as np
    from osgeo import gdal, gdal_array
    nf.isfileobj = lambda f: False
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_HAS_FCOPYFILE"):
        shutil._HAS_FCOPYFILE = False
    new = {}

    def patch(mod, name, f):
        old = getattr(mod, name)
        new[id(old)] = (old, f)
        setattr(mod, name, f)
    patch(builtins, "open", sim_open)
    io.open = sim_open
    tarfile.bltn_open = sim_open
    patch(os, "open", sim_os_open)
    for n, k in (("stat", "stat"), ("lstat", "stat"), ("mkdir", "mkdir"), ("rmdir", "rmdir"), ("unlink", "unlink"),
                 ("remove", "unlink"), ("truncate", "trunc"), ("access", "stat"), ("utime", "utime")):
        patch(os, n, _p1(k, n))
    for n in ("rename", "replace", "link", "symlink"):
        patch(os, n, _p2(n))
    patch(os, "listdir", sim_listdir)
    patch(os, "scandir", sim_scandir)
    patch(os, "write", sim_os_write)
    patch(os, "close", sim_os_close)
    patch(time, "sleep", sim_sleep)
    patch(time, "time", lambda: _epoch())
    patch(time, "monotonic", lambda: W.now)
    patch(time, "perf_counter", lambda: W.now)
    patch(time, "time_ns", lambda: int(_epoch() * 1e9))
    patch(time, "monotonic_ns", lambda: int(W.now * 1e9))
    patch(time, "perf_counter_ns", lambda: int(W.now * 1e9))
    fake = 1000 * (worker.rank + 1) + worker.inc
    patch(os, "getpid", lambda: fake)
    patch(os, "urandom", lambda n: bytes(worker.rng.getrandbits(8) for _ in range(n)))
    tempfile._RandomNameSequence.rng = property(lambda self: worker.rng)
    tempfile._name_sequence = None
    random.seed("%s.%s" % (worker.rank, worker.inc))
    np.random.seed(worker.rank * 7 + worker.inc)
    rgen, draws = np.random.default_rng, []

    def default_rng(seed=None):
        if seed is None:
            draws.append(0)
            seed = [worker.rank, worker.inc, len(draws)]
        return rgen(seed)
    patch(np.random, "default_rng", default_rng)
    # GDAL does its own file I/O in C; its entry points are operations of the simulator
    ropen, rload = gdal.Open, gdal_array.LoadFile

    def gopen(path, *a, **k):
        rel = W.rel(path)
        if rel is not None:
            W.op("gdal_r", rel)
        return ropen(path, *a, **k)

    def gload(path, *a, **k):
        rel = W.rel(path)
        if rel is not None:
            W.op("gdal_r", rel)
        return rload(path, *a, **k)
    patch(gdal, "Open", gopen)
    patch(gdal_array, "LoadFile", gload)
    rcreate, rflush = gdal.Driver.Create, gdal.Dataset.FlushCache

    def gcreate(self, path, *a, **k):
        rel = W.rel(path)
        if rel is not None:
            W.op("gdal_w", rel)
        return rcreate(self, path, *a, **k)

    def torn(path, val):
        """the process dies while GDAL writes: part of the file is on storage"""
        try:
            n = _real["stat"](path).st_size
            _real["truncate"](path, n * val // 1000)
        except OSError:
            pass
        W.die()

    def gflush(self, *a, **k):
        path = self.GetDescription()
        rel = W.rel(path) if path else None
        t = W.op("gdal_w", rel or "flush", 1000 if rel else 0)
        try:
            return rflush(self, *a, **k)
        finally:
            if isinstance(t, tuple):
                torn(path, t[1])
    gdal.Driver.Create = gcreate
    gdal.Dataset.FlushCache = gflush
    for n in ("Warp", "Translate"):
        r = getattr(gdal, n)

        def g(dst, *a, _r=r, **k):
            rel = W.rel(dst) if isinstance(dst, str) and dst else None
            if rel is None:
                return _r(dst, *a, **k)
            t = W.op("gdal_w", rel, 1000)
            d = None
            try:
                d = _r(dst, *a, **k)
                return d
            finally:
                if isinstance(t, tuple):
                    if d is not None:
                        rflush(d)
                    torn(dst, t[1])
        patch(gdal, n, g)
    _dtproxy = types.ModuleType("datetime")
    _dtproxy.__dict__.update(_dtmod.__dict__)
    _dtproxy.datetime = DatetimeShim
    _dtproxy.date = DateShim
    # names the code under test imported from those modules
    for mn, m in list(sys.modules.items()):
        if m is None or not (mn == "pycold" or mn.startswith("pycold.")):
            continue
        for k, v in list(vars(m).items()):
            if id(v) in new and new[id(v)][0] is v:
                setattr(m, k, new[id(v)][1])
            elif v is _real_datetime:
                setattr(m, k, DatetimeShim)
            elif v is _dtmod:
                setattr(m, k, _dtproxy)
    for m in (shutil, glob, genericpath, tempfile, tarfile):
        for k, v in list(vars(m).items()):
            if id(v) in new and new[id(v)][0] is v and not k.startswith("__"):
                setattr(m, k, new[id(v)][1])
    # functions captured inside os itself
    # (os.walk / os.makedirs look names up in the module, so they are covered)


# ---------------------------------------------------------------------------------- MPI stub
class Comm:
    """COMM_WORLD: every call is an operation of the simulator, which owns delivery and blocking"""
    def __init__(self): self.n = 0
    def Get_rank(self): return W.cfg["mpi_rank_base"] + W.rank
    def Get_size(self): return W.cfg["mpi_size"]
    rank = property(Get_rank)
    size = property(Get_size)

    def _coll(self, name, obj, root=0):
        import pickle
        self.n += 1
        r = W.op("mpi", "%s:%d:%d" % (name, self.n, root), pickle.dumps(obj))
        return pickle.loads(r) if isinstance(r, bytes) else r

    def bcast(self, obj=None, root=0): return self._coll("bcast", obj, root)
    def Barrier(self): self._coll("barrier", None)
    barrier = Barrier
    def gather(self, obj, root=0):
        r = self._coll("gather", obj, root)
        return r if self.Get_rank() == root else None
    def allgather(self, obj): return self._coll("allgather", obj)
    def scatter(self, obj=None, root=0):
        r = self._coll("scatter", obj, root)
        return r[self.Get_rank()]
    def allreduce(self, obj, op=None):
        r = self._coll("allgather", obj)
        if op in (None, "SUM"):
            t = r[0]
            for x in r[1:]:
                t = t + x
            return t
        return {"MAX": max, "MIN": min, "LAND": all, "LOR": any}[op](r)
    def reduce(self, obj, op=None, root=0):
        r = self.allreduce(obj, op)
        return r if self.Get_rank() == root else None
    def Abort(self, code=1):
        raise SystemExit(code)


def mpi_module():
    pkg = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = Comm()
    for n in ("SUM", "MAX", "MIN", "LAND", "LOR"):
        setattr(mpi, n, n)
    mpi.Finalize = lambda: None
    mpi.Is_initialized = lambda: True
    mpi.Wtime = lambda: W.now
    pkg.MPI = mpi
    pkg.__path__ = []
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, mpi
    return pkg
