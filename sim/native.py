"""The native detectors under the simulator: allocator, heap contents, call history, thread schedule, process restarts.

run_alloc  (C11)  memory requests fail
run_iso    (C12)  everything except the arguments changes
Both run the code under test in forked processes, so that a crash or an endless loop is an observation."""
import base64, ctypes, hashlib, json, mmap, os, pickle, random, resource, select, signal, struct, subprocess, sys, threading, time
import numpy as np

from . import pixels
from .core import HarnessError, Plan

CPU = 30.0          # seconds of CPU time after which a call counts as endless (the slowest call needs well under 1 s)
WALL = 150.0
LIB = None
COLDS = None
CYT = None
_libc = ctypes.CDLL(None)


def load():
    global LIB, COLDS, CYT
    import pycold.colds as colds
    import pycold._colds_cython as cyt
    COLDS, CYT = colds, cyt
    cyt.np = SEAM
    LIB = ctypes.CDLL(cyt.__file__)
    LIB.simalloc_begin.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_ulong]
    LIB.simalloc_sites.argtypes = [ctypes.c_void_p, ctypes.c_long]
    for f in ("count", "fired", "live", "dropped", "overrun"):
        getattr(LIB, "simalloc_" + f).restype = ctypes.c_long


class Res:
    def __init__(self):
        self.violations, self.stats, self.plan, self.digest, self.sched = [], {}, Plan(), "", ""

    def add(self, cls, text):
        if (cls, text) not in self.violations:
            self.violations.append((cls, text))


# ---------------------------------------------------------------- results in comparable form
def bits(x):
    """value of a result, bit by bit, without the padding of structured types"""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return ("rec", x.shape, tuple((n, np.ascontiguousarray(x[n]).tobytes()) for n in x.dtype.names))
        return ("arr", x.shape, str(x.dtype) if x.size else "", np.ascontiguousarray(x).tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(bits(v) for v in x)
    if isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.void) else x.tobytes()
    return x


# ---------------------------------------------------------------- calls
def op_args(op):
    """the arrays a call is given: dates, seven bands, quality and, for the reconstruction, the break dates"""
    s = pixels.series(*op["px"])
    if "kin" in op:
        pixels.relative(s, *op["kin"])
    a = pixels.args(s)
    if op["fn"] == "ob":
        n = len(a[0])
        d = [int(a[0][min(n - 1, int(f * n))]) for f in op["bd"]]
        if op.get("bdmix"):             # as a yearly list: zeros for years without a break, in any order
            r = random.Random("bd-%s" % op["bdmix"])
            d += [0] * r.randrange(0, 4) + r.sample(d, r.randrange(0, 2))
            r.shuffle(d)
        else:
            d = sorted(set(d))
        a.append(np.array(d, np.int64))
    return a


def call_kw(op):
    kw = dict(pos=op.get("pos", 7), conse=op["conse"], t_cg=op["tcg"], b_c2=op["b_c2"])
    if "gate" in op:
        kw["gate_tcg"] = op["gate"]
    if "predict" in op:
        kw["predictability_tcg"] = op["predict"]
    return kw


def cut_points(op, n, dates=None):
    """(size of the initial part, ends of the batches)"""
    r = random.Random("cut-%s" % op["cut"])
    m = min(n, max(2, int(n * op["frac"])))
    if dates is not None and r.random() < 0.93:      # the detectors refuse less than a year of observations
        while m < n and dates[m - 1] - dates[0] < 370:
            m += 1
    k, out = m, []
    size = r.choice([1, 1, 2, 3, 7, 20])
    if size == 1:
        n = min(n, m + 40)
    while k < n:
        k = min(n, k + (size if r.random() < 0.7 else r.choice([1, 2, 5, 11])))
        out.append(k)
    return m, out


def do_chain(op, a, retry=False):
    """initial detection, then near-real-time updates; -> tuple of all states"""
    n = len(a[0])
    m, cuts = cut_points(op, n)
    errs = []

    def attempt(f, *x, **kw):
        before = [v.copy() for v in x if isinstance(v, np.ndarray)]
        try:
            return f(*x, **kw)
        except Exception as e:
            if not retry or not LIB.simalloc_fired():
                raise
            errs.append(type(e).__name__)
            if errs[-1] not in ("RuntimeError", "MemoryError"):
                raise
            LIB.simalloc_end()
            assert all((p == q).all() for p, q in zip(before, [v for v in x if isinstance(v, np.ndarray)]))
            return f(*x, **kw)
    kw = call_kw(op)
    p = attempt(COLDS.sccd_detect, *[x[:m].copy() for x in a], **kw)
    out = [bits(p)]
    raw = [p]
    k = m
    for e in cuts:
        b0 = bits(p)
        q = attempt(COLDS.sccd_update, p, *[x[k:e].copy() for x in a], **kw)
        if bits(p) != b0:
            raise AssertionError("the update changed the state it was given")
        p = q
        out.append(bits(p))
        raw.append(p)
        k = e
    if HELD is not None:
        HELD.append((raw, tuple(out)))
    return tuple(out)


def do(op, a, retry=False):
    fn, kw = op["fn"], call_kw(op)
    if fn == "cold":
        return COLDS.cold_detect(*a, gap_days=op.get("gap", 365.25), **kw)
    if fn == "cm":
        iv = op.get("interval", 60)
        st = int(a[0][0]) - op.get("early", 0)
        return COLDS.cold_detect(*a, b_output_cm=True, starting_date=st, cm_output_interval=iv,
                                 n_cm=int(np.ceil((int(a[0][-1]) - st + 1) / iv)) + 1, **kw)
    if fn == "ob":
        kw.pop("t_cg")
        return COLDS.obcold_reconstruct(*a, **kw)
    if fn == "sccd":
        return COLDS.sccd_detect(*a, **kw)
    if fn == "pin":
        return COLDS.sccd_detect(*a, b_pinpoint=True, **kw)
    if fn == "chain":
        return do_chain(op, a, retry)
    raise ValueError(fn)


HELD = None         # list: the results themselves, with their content when they were returned


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v)


def held(op, others, seed):
    """results are kept while other pixels are processed: they must not change; then the caller overwrites them, which must not
    change what the next call returns -> (changed, result of the last call)"""
    global HELD
    r = random.Random("held-%s" % seed)
    HELD = []
    run_op(op)
    mine = list(HELD)
    for _ in range(r.randrange(1, 4)):
        run_op(r.choice(others + [op]))
    changed = [1 for raw, was in HELD if tuple(bits(x) for x in raw) != was]
    junk = r.choice([0, 255, 0x3F])
    for raw, _ in mine:
        for x in arrays([list(v) if isinstance(v, (list, tuple)) else v for v in raw]):
            if x.flags.writeable and x.size and not x.dtype.hasobject:
                x[...] = np.frombuffer(bytes([junk]) * x.dtype.itemsize, x.dtype)[0]
    HELD = None
    return bool(changed), run_op(op)[0]


def run_op(op, prep=None, retry=False):
    """-> (outcome, arrays unchanged?)"""
    a = op_args(op)
    SEAM.live = []
    if prep:
        a = prep(a)
    keep = [x.copy() for x in a]
    try:
        x = do(op, a, retry)
        r = ("ok", bits(x))
        if HELD is not None and op["fn"] != "chain":
            HELD.append(([x], (r[1],)))
    except Exception as e:
        r = ("err", type(e).__name__, str(e))
    return r, all(x.dtype == y.dtype and (x == y).all() for x, y in zip(a, keep))


FNS = ["cold", "cold", "cm", "cm", "ob", "sccd", "sccd", "pin", "chain", "chain"]


def gen_op(r, small=False):
    kind = "many" if r.random() < 0.02 else r.choice(pixels.KINDS)
    years = r.choice([2.0, 3.0, 4.0, 6.0] if small else [2.0, 3.0, 4.0, 6.0, 9.0, 12.0])
    fn = r.choice(FNS)
    op = {"fn": fn, "px": [r.randrange(10 ** 9), kind, years, r.choice([4, 8, 8, 12, 16])],
          "conse": r.choice([6, 6, 6, 4, 3, 8]), "tcg": r.choice([15.0863, 15.0863, 11.07, 9.236]), "b_c2": r.random() < 0.4}
    if kind == "early" and r.random() < 0.5:
        op["conse"] = r.choice([7, 8])
    if fn in ("cold", "cm", "ob") and r.random() < 0.1:
        op["conse"] = r.choice([5, 9, 11])
    if fn == "cold" and r.random() < 0.2:
        op["gap"] = r.choice([100, 1500])
    if fn == "cm":
        op["interval"] = r.choice([16, 32, 60, 60, 180])
        op["early"] = r.choice([0, 0, 40, 400])
    if fn == "ob":
        op["bd"] = [round(r.random(), 3) for _ in range(r.randrange(1, 4))]
        if r.random() < 0.4:
            op["bdmix"] = r.randrange(1, 10 ** 6)
    if fn == "chain":
        op["frac"] = r.choice([0.4, 0.6, 0.8, 0.9])
        op["cut"] = r.randrange(10 ** 6)
    return op


def gen_kin(r, op):
    """a call that resembles another one: a neighbouring pixel with the same dates, or the same pixel with one parameter changed"""
    o = dict(op)
    if r.random() < 0.7:
        o["kin"] = [r.choice(["noise", "one", "swap", "level", "clouds", "band"]), r.randrange(10 ** 6)]
    if "kin" not in o or r.random() < 0.2:
        k = r.choice(["conse", "tcg", "b_c2", "pos", "fn"])
        if k == "conse":
            o["conse"] = r.choice([3, 4, 5, 6])
        elif k == "tcg":
            o["tcg"] = r.choice([15.0863, 11.07, 9.236, 30.0])
        elif k == "b_c2":
            o["b_c2"] = not o["b_c2"]
        elif k == "pos":
            o["pos"] = r.choice([1, 8, 10000])
        elif o["fn"] in ("cold", "sccd", "pin"):
            o["fn"] = {"cold": "sccd", "sccd": r.choice(["cold", "pin"]), "pin": "sccd"}[o["fn"]]
            o["conse"] = min(o["conse"], 8)
    return o


# ---------------------------------------------------------------- isolated execution
def isolated(tasks):
    """run the tasks one after another in a forked process; a crash or endless loop costs only that task"""
    out = [None] * len(tasks)
    k = 0
    while k < len(tasks):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                _libc.prctl(1, signal.SIGKILL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                vm = int(open("/proc/self/statm").read().split()[0]) * 4096
                resource.setrlimit(resource.RLIMIT_AS, (vm + (3 << 30), vm + (3 << 30)))
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                for i in range(k, len(tasks)):
                    signal.setitimer(signal.ITIMER_PROF, CPU)
                    try:
                        b = pickle.dumps((True, tasks[i]()))
                    except Exception:
                        import traceback
                        b = pickle.dumps((False, traceback.format_exc()))
                    b = struct.pack("<q", len(b)) + b
                    while b:
                        b = b[os.write(w, b):]
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        buf = b""
        late = False
        end = time.time() + WALL * 2
        while True:
            if not select.select([r], [], [], max(0.0, min(WALL, end - time.time())))[0]:
                late = True
                os.kill(pid, signal.SIGKILL)
                break
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        while len(buf) >= 8:
            n = struct.unpack_from("<q", buf)[0]
            if len(buf) < 8 + n:
                break
            good, val = pickle.loads(buf[8:8 + n])
            if not good:
                raise HarnessError(val)
            out[k] = ("ret", val)
            buf = buf[8 + n:]
            k += 1
        if k < len(tasks):
            if os.WIFEXITED(st):
                out[k] = ("lost",)
            else:
                out[k] = ("hang",) if late or os.WTERMSIG(st) == signal.SIGPROF else ("crash",)
            k += 1
    return out


def digest(*x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()


def describe(op):
    t = "%s(conse=%d, t_cg=%s%s) on %s series %d" % (
        {"cold": "cold_detect", "cm": "cold_detect with change-magnitude output", "ob": "obcold_reconstruct", "sccd": "sccd_detect",
         "pin": "sccd_detect with pinpoint output", "chain": "sccd_detect + sccd_update"}[op["fn"]], op["conse"], op["tcg"],
        ", b_c2" if op["b_c2"] else "", op["px"][1], op["px"][0])
    return t


# ---------------------------------------------------------------- C11: failing memory requests
NSITES = 1 << 20


def alloc_base(op, op2):
    m = mmap.mmap(-1, NSITES * 8)
    buf = (ctypes.c_uint64 * NSITES).from_buffer(m)

    def base():
        LIB.simalloc_begin(0, 0, -1, 0)
        LIB.simalloc_sites(ctypes.addressof(buf), NSITES)
        r, same = run_op(op)
        n, over = LIB.simalloc_count(), LIB.simalloc_overrun() + SEAM.overruns()
        LIB.simalloc_end()
        r2, s2 = run_op(op2)
        return r, n, over, same, r2
    v = isolated([base])[0]
    if v[0] != "ret":
        return None
    n = v[1][1]
    sites = np.frombuffer(m, np.uint64, count=min(n, NSITES)).copy()
    return v[1] + (sites,)


def run_alloc(scn, scratch, plan=None):
    out = Res()
    op, op2 = scn["op"], scn["op2"]
    b = alloc_base(op, op2)
    out.stats["calls"] = 2
    if b is None:
        out.digest = digest("base died")
        out.add("base", "%s dies even without a failing request" % describe(op))
        out.sched = out.digest[:16]
        return out
    base, n, over, same, base2, sites = b
    if plan is not None:
        trials = sorted(plan.faults.items())
    else:
        trials = []
        r = random.Random("alloc-%s" % scn["seed"])
        groups = [(s, np.unique(s)) for s in (sites & np.uint64(0xFFFFFFFF), sites)]      # by request, by request and calling function
        for k in range(scn["faults"].get("trials", 0) if n else 0):
            if r.random() < 0.75:
                s, uniq = groups[r.random() < 0.6]
                w = np.nonzero(s == uniq[r.randrange(len(uniq))])[0]
                at = int(w[0] if r.random() < 0.3 else w[-1] if r.random() < 0.2 else w[r.randrange(len(w))]) + 1
            else:
                at = r.randrange(n) + 1
            trials.append(((k,), (at, r.choice([0, 0, 0, 0, 1, 1, 2]), r.randrange(1 << 30), r.choice([0, 0, 0, 1, 2]))))
    for k, v in trials:
        out.plan.faults[tuple(k)] = tuple(v)

    def trial(at, mode, seed, later):
        def f():
            LIB.simalloc_begin(at, mode, -1, seed)
            r, same = run_op(op, retry=True)
            fired, ov = LIB.simalloc_fired(), LIB.simalloc_overrun() + SEAM.overruns()
            LIB.simalloc_end()
            lat = None
            if later:
                lat = run_op(op if later == 1 else op2)[0]
            return r, same, fired, ov, lat
        return f
    got = isolated([trial(*v) for k, v in trials])
    seq = []
    st = out.stats
    for (k, (at, mode, seed, later)), g in zip(trials, got):
        how = "when memory request %d of %d fails%s" % (at, n, {0: "", 1: " and all later ones", 2: " and some later ones"}[mode])
        st["calls"] = st.get("calls", 0) + 1 + bool(later)
        if g[0] != "ret":
            cls = "hang" if g[0] == "hang" else "crash"
            out.add(cls, "%s %s %s" % (describe(op), "never returns" if cls == "hang" else "kills the process", how))
            seq.append((at, mode, cls))
            st["fault_failed_request"] = st.get("fault_failed_request", 0) + 1
            continue
        r, same2, fired, ov, lat = g[1]
        st["fault_failed_request"] = st.get("fault_failed_request", 0) + fired
        o = "same"
        if fired and r != base:
            if r[0] == "ok" or (base[0] == "err" and r[0] == "ok"):
                o = "wrong"
                out.add("wrong", "%s returns a different result, and no error, %s" % (describe(op), how))
            elif r[1] not in ("RuntimeError", "MemoryError"):
                o = "exc"
                out.add("exc", "%s reports '%s: %s' instead of a failure %s" % (describe(op), r[1], r[2][:120], how))
            else:
                o = "error"
        if same and not same2:
            out.add("input", "%s changes the caller's arrays %s" % (describe(op), how))
        if fired and ov and not over:
            out.add("overrun", "%s writes outside its memory %s" % (describe(op), how))
        if lat is not None and fired and lat != (base if later == 1 else base2):
            out.add("later", "after %s failed %s, %s returns a different result" % (describe(op), how, describe(op if later == 1 else op2)))
        st["outcome_" + o] = st.get("outcome_" + o, 0) + 1
        seq.append((int(sites[at - 1]) if at <= len(sites) else -1, mode, o, bool(fired)))
    out.stats["memory_requests"] = n
    out.stats["distinct_failing_sites"] = len({s[0] for s in seq})
    out.digest = digest([(k, v) for k, v in trials], [(s[1], s[2]) for s in seq], sorted(out.violations))
    out.sched = digest(op["fn"], sorted(seq))[:16]
    return out


# ---------------------------------------------------------------- C12: only the arguments matter
class Baton:
    """exactly one thread runs; who runs next is decided by the seed, at call boundaries and, in code that has given up
    the interpreter lock, at memory requests"""

    def __init__(self, n, seed):
        self.r = random.Random("baton-%s" % seed)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.cur = None
        self.nogil = 0
        self.switches = 0

    def hand(self, i):
        j = self.r.choice(sorted(self.alive)) if self.alive else None
        if j is None or j == i:
            return
        self.switches += 1
        self.cur = j
        self.sem[j].release()
        if i in self.alive:
            self.sem[i].acquire()

    def hook(self):
        self.nogil += 1
        if self.r.random() < 0.1:
            self.hand(self.cur)


def threads(ops, seed, nth):
    b = Baton(nth, seed)
    todo = [[] for _ in range(nth)]
    r = random.Random("deal-%s" % seed)
    for k, o in enumerate(ops):
        todo[r.randrange(nth)].append((k, o))
    res = {}

    def work(i):
        b.sem[i].acquire()
        for k, o in todo[i]:
            res[k] = run_op(o)[0]
            b.hand(i)
        b.alive.discard(i)
        b.hand(i)
    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(nth)]
    CB = ctypes.CFUNCTYPE(None)
    cb = CB(b.hook)
    LIB.simalloc_yield(cb)
    LIB.simalloc_begin(0, 0, 0, seed)
    for t in ts:
        t.start()
    b.cur = min(b.alive)
    b.sem[b.cur].release()
    for t in ts:
        t.join(CPU * 4)
        if t.is_alive():
            os.kill(os.getpid(), signal.SIGPROF)
    LIB.simalloc_end()
    return [res.get(k) for k in range(len(ops))], b.switches, b.nogil


class NpSeam:
    """numpy as the extension sees it: fresh arrays have the contents the simulator chooses, and lie between guard zones"""
    G = 1 << 14

    def __init__(self, byte=0):
        self.byte, self.live = byte, []

    def __getattr__(self, k):
        return getattr(np, k)

    def _new(self, n, dtype):
        dt = np.dtype(dtype)
        size = int(n) * dt.itemsize
        big = np.full(size + 2 * self.G, 0xC5, np.uint8)
        self.live.append((big, size))
        return big[self.G:self.G + size].view(dt)

    def empty(self, n, dtype=float):
        x = self._new(n, dtype)
        x.view(np.uint8)[:] = self.byte
        return x

    def zeros(self, n, dtype=float):
        x = self._new(n, dtype)
        x.view(np.uint8)[:] = 0
        return x

    def full(self, n, v, dtype=None):
        if dtype is None or not isinstance(n, (int, np.integer)):
            return np.full(n, v, dtype)
        x = self._new(n, dtype)
        x[:] = v
        return x

    def overruns(self):
        bad = sum(1 for b, s in self.live if (b[:self.G] != 0xC5).any() or (b[self.G + s:] != 0xC5).any())
        self.live = []
        return bad


SEAM = NpSeam()


def surround(seed):
    """every array the extension receives lies inside a larger one with chosen neighbours"""
    g = np.random.default_rng(seed)
    mode = seed % 3

    def put(x):
        if not (isinstance(x, np.ndarray) and x.ndim == 1 and x.dtype == np.int64):
            return x
        n = len(x)
        big = np.zeros(n + 16, np.int64) if mode == 0 else g.integers(-2 ** 62, 2 ** 62, n + 16) if mode == 1 else g.integers(0, 5000, n + 16)
        big[8:8 + n] = x
        return big[8:8 + n]

    def wrap(f):
        return lambda *a, **kw: f(*[put(x) for x in a], **{k: put(v) for k, v in kw.items()})
    for f in ("_cold_detect", "_sccd_detect", "_sccd_update", "_obcold_reconstruct"):
        setattr(COLDS, f, wrap(getattr(COLDS, f)))


def layout(which):
    def one(x):
        n = len(x)
        if which == "strided":
            y = np.full(n * 3, 77, np.int64)
            y[1::3] = x
            return y[1::3]
        if which == "reversed":
            return x[::-1].copy()[::-1]
        if which == "swapped":
            return x.astype(">i8")
        if which == "int32":
            return x.astype(np.int32)
        if which == "readonly":
            y = x.copy()
            y.flags.writeable = False
            return y
        if which == "column":
            y = np.zeros((n, 4), np.int64)
            y[:, 2] = x
            return y[:, 2]
    return lambda a: [one(x) for x in a]


LAYOUTS = ("strided", "reversed", "swapped", "int32", "readonly", "column")
HELPERS = {}
SNAP = None


def helper(variant):
    if variant not in HELPERS:
        HELPERS[variant] = subprocess.Popen([sys.executable, "-m", "sim.native", SNAP + "-" + variant], stdin=subprocess.PIPE,
                                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return HELPERS[variant]


def ask(variant, op, poison, seed):
    h = helper(variant)
    h.stdin.write((json.dumps([op, poison, seed]) + "\n").encode())
    h.stdin.flush()
    l = h.stdout.readline()
    if not l:
        raise RuntimeError("helper process for %s ended" % variant)
    return pickle.loads(base64.b64decode(l))


def helper_main():
    sys.path.insert(0, sys.argv[1])
    out = os.fdopen(os.dup(1), "wb", 0)
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    _libc.prctl(1, signal.SIGKILL)
    load()
    for l in sys.stdin:
        op, poison, seed = json.loads(l)
        out.write(base64.b64encode(pickle.dumps(isolated([lambda: poisoned(op, poison, seed)])[0])) + b"\n")


def poisoned(op, poison, seed, prep=None):
    LIB.simalloc_begin(0, 0, poison, seed)
    r, same = run_op(op, prep)
    ov = LIB.simalloc_overrun() + SEAM.overruns()
    LIB.simalloc_end()
    return r, same, ov


def gen_pert(r, nothers):
    k = r.choice(["poison", "poison", "poison", "after", "after", "afterfail", "variant", "variant", "layout", "surround", "surround", "empty",
                  "threads", "twice", "held", "kin"])
    if k == "poison":
        return (k, r.choice([255, 255, 0x7F, 1, -2, -2]), r.randrange(1 << 30))
    if k in ("after", "afterfail"):
        return (k, r.randrange(1 << 30), r.randrange(1, 4))
    if k == "variant":
        return (k, r.choice(["autopattern", "autopattern", "plain"]), r.choice([0, 255]))
    if k == "layout":
        return (k, r.choice(LAYOUTS), 0)
    if k == "surround":
        return (k, r.randrange(1 << 30), 0)
    if k == "empty":
        return (k, r.choice([255, 1, 127]), 0)
    if k == "threads":
        return (k, r.randrange(1 << 30), r.choice([2, 2, 3, 4]))
    if k in ("held", "kin"):
        return (k, r.randrange(1 << 30), 0)
    return (k, 0, 0)


def run_iso(scn, scratch, plan=None):
    out = Res()
    op, others = scn["op"], scn["others"]
    st = out.stats
    v = isolated([lambda o=o: poisoned(o, 0, 0) for o in [op] + others])
    st["calls"] = len(v)
    seq = []
    base = []
    for o, x in zip([op] + others, v):
        if x[0] != "ret":
            out.add("crash" if x[0] != "hang" else "hang", "%s %s" % (describe(o), "never returns" if x[0] == "hang" else "kills the process"))
            seq.append(x[0])
        else:
            (r, same, ov) = x[1]
            if not same:
                out.add("input", "%s changes the caller's arrays" % describe(o))
                seq.append("input")
            if ov:
                out.add("overrun", "%s writes outside its memory" % describe(o))
                seq.append("overrun")
        base.append(x)
    if plan is not None:
        perts = sorted(plan.faults.items())
    else:
        r = random.Random("iso-%s" % scn["seed"])
        perts = [((k,), gen_pert(r, len(others))) for k in range(scn["faults"].get("perturbations", 0))]
    for k, p in perts:
        out.plan.faults[tuple(k)] = tuple(p)
    if base[0][0] != "ret":
        perts = []
    want = [x[1][0] if x[0] == "ret" else None for x in base]
    for k, (kind, x, y) in perts:
        st["fault_" + kind] = st.get("fault_" + kind, 0) + 1
        pairs = []
        if kind == "poison":
            g = isolated([lambda: poisoned(op, x, y)])[0]
            how = "with other initial contents of memory"
            pairs = [(0, lambda v: v[0])]
        elif kind in ("after", "afterfail"):
            rr = random.Random(x)
            pre = [rr.randrange(len(others)) for _ in range(y)]
            fails = [rr.randrange(1, 400) if rr.random() < 0.7 else rr.randrange(1, 20000) for _ in pre]
            modes = [rr.choice([0, 1, 2]) for _ in pre]

            def f():
                for q, fa, mo in zip(pre, fails, modes):
                    if kind == "afterfail":
                        LIB.simalloc_begin(fa, mo, -1, x)
                        run_op(others[q])
                        LIB.simalloc_end()
                    else:
                        run_op(others[q])
                return poisoned(op, 0, 0)
            g = isolated([f])[0]
            how = "after other calls in the same process" + (" whose memory requests failed" if kind == "afterfail" else "")
            if kind == "afterfail" and g[0] != "ret":
                g = ("skip",)       # dying from a failed request is C11
            st["calls"] += len(pre)
            pairs = [(0, lambda v: v[0])]
        elif kind == "kin":
            rr = random.Random(x)
            kin = [gen_kin(rr, op) for _ in range(rr.choice([1, 1, 2]))]

            def f():
                for o in kin:
                    run_op(o)
                return poisoned(op, 0, 0)
            g = isolated([f])[0]
            how = "after a similar pixel in the same process"
            st["calls"] += len(kin)
            pairs = [(0, lambda v: v[0])]
        elif kind == "held":
            g = isolated([lambda: held(op, others, x)])[0]
            how = "after the caller overwrote an earlier result"
            if g[0] == "ret" and g[1][0]:
                out.add("diff", "%s: a result already returned changes while other pixels are processed" % describe(op))
            pairs = [(0, lambda v: v[1])]
        elif kind == "variant":
            g = ask(x, op, y, 0)
            how = "with other initial contents of stack variables"
            pairs = [(0, lambda v: v[0])]
        elif kind == "layout":
            g = isolated([lambda: poisoned(op, 0, 0, layout(x))])[0]
            how = "when the same values are passed in %s arrays" % x
            pairs = [(0, lambda v: v[0])]
        elif kind == "surround":
            def f():
                surround(x)
                return poisoned(op, 0, 0)
            g = isolated([f])[0]
            how = "with other values next to the input arrays in memory"
            pairs = [(0, lambda v: v[0])]
        elif kind == "empty":
            def f():
                SEAM.byte = x
                return poisoned(op, 255, 0)
            g = isolated([f])[0]
            how = "with other initial contents of memory"
            pairs = [(0, lambda v: v[0])]
        elif kind == "twice":
            def f():
                return [run_op(op)[0] for _ in range(3)]
            g = isolated([f])[0]
            how = "when it is repeated in the same process"
            pairs = [(0, lambda v: v[0]), (0, lambda v: v[1]), (0, lambda v: v[2])]
            st["calls"] += 2
        elif kind == "threads":
            rr = random.Random(x)
            idx = [0] + [rr.randrange(len(others) + 1) for _ in range(rr.randrange(2, 6))]
            ok = [q for q in idx if want[q] is not None]
            allops = [op] + others

            def f():
                return threads([allops[q] for q in ok], x, y)
            g = isolated([f])[0]
            how = "when %d threads call the detectors" % y
            pairs = [(q, lambda v, j=j: v[0][j]) for j, q in enumerate(ok)]
            st["calls"] += len(ok)
            if g[0] == "ret":
                st["thread_switches"] = st.get("thread_switches", 0) + g[1][1]
                st["scheduling_points_without_gil"] = st.get("scheduling_points_without_gil", 0) + g[1][2]
        st["calls"] += 1
        o = "same"
        if g[0] == "skip":
            o = "skip"
        elif g[0] != "ret":
            o = "hang" if g[0] == "hang" else "crash"
            out.add(o, "%s %s %s" % (describe(op), "never returns" if o == "hang" else "kills the process", how))
        else:
            for q, sel in pairs:
                if want[q] is not None and sel(g[1]) != want[q]:
                    o = "diff"
                    a, b = sel(g[1]), want[q]
                    out.add("diff", "%s gives a different result %s" % (describe(([op] + others)[q]), how))
        seq.append((kind, o))
    out.digest = digest([(k, v) for k, v in perts], seq, sorted(out.violations))
    out.sched = digest(op, [v for k, v in perts])[:16]
    return out


RUN = {"alloc": run_alloc, "iso": run_iso}


def run(scn, scratch, plan=None):
    if scn["kind"] not in RUN:
        from . import nrt
        return nrt.run(scn, scratch, plan)
    return RUN[scn["kind"]](scn, scratch, plan)


def setup(snap, scratch):
    global SNAP
    SNAP = snap
    load()
    assert os.path.realpath(CYT.__file__).startswith(os.path.realpath(snap))


if __name__ == "__main__":
    from sim import native
    native.helper_main()
