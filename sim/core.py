"""The simulator's controller: owns schedule, clock, faults.  One Sim object = one execution."""
import ctypes, errno, hashlib, marshal, os, random, signal, socket, sys, time, traceback, shutil, pickle

from . import worker as wk

MUT = wk.MUTATING
_libc = ctypes.CDLL(None, use_errno=True)
POLL_LIMIT = 4          # polls of every waiting process without any change on storage ...
STUCK_TIME = 3600.0     # ... and simulated seconds without change: the job can never progress


class HarnessError(Exception):
    pass


ROOTLEN = 120       # paths that reach file contents have the same length in every process


def fresh_root(scratch):
    import tempfile
    d = tempfile.mkdtemp(prefix="d", dir=scratch)
    d = os.path.join(d, "r" * max(1, ROOTLEN - len(d) - 1))
    os.mkdir(d)
    return d


class Node:
    __slots__ = ("rank", "entry", "state", "wake", "sock", "pid", "inc", "opidx", "mutidx", "pending", "result",
                 "sleeps", "exits", "io_faulted", "coll", "collreq", "restart_at", "held", "opened", "slow", "slow_done", "race")

    def __init__(self, rank, entry):
        self.rank, self.entry = rank, entry
        self.state = "new"      # new ready sleeping blocked down done failed
        self.wake = 0.0
        self.sock = self.pid = None
        self.inc = -1
        self.opidx = self.mutidx = 0
        self.pending = None
        self.exits = []
        self.sleeps = 0
        self.io_faulted = False
        self.coll = {}
        self.collreq = None
        self.restart_at = None
        self.held = None
        self.opened = {}
        self.slow = 1.0
        self.slow_done = -1     # operation index whose fault was already applied (a stall)
        self.race = None        # (path, key) while held back until another worker changes the path


class Plan:
    """every decision of a run, in a form that can be stored, replayed and shrunk"""

    def __init__(self, d=None):
        d = d or {}
        self.switches = {int(k): v for k, v in d.get("switches", {}).items()}   # step -> rank
        self.faults = {tuple(f[0]): tuple(f[1]) for f in d.get("faults", [])}   # (rank, inc, opidx) -> (action, arg, arg2)

    def to_json(self):
        return {"switches": {str(k): v for k, v in sorted(self.switches.items())},
                "faults": [[list(k), list(v)] for k, v in sorted(self.faults.items())]}


class Sim:
    def __init__(self, root, seed, entries, cfg=None, policy=None, faultgen=None, plan=None, max_steps=400000,
                 invariant=None, mpi=False, log=None, restart_failed=True,
                 inc0=0, step0=0):
        self.root = root.rstrip("/")
        self.seed = seed
        self.inc0 = inc0
        self.cfg = cfg or {}
        self.rng = random.Random("sched-%s" % seed)
        self.replay = plan
        self.plan = Plan()
        self.policy = policy or {"kind": "uniform", "p": 0.3}
        self.faultgen = faultgen
        self.nodes = {r: Node(r, e) for r, e in entries.items()}
        for n in self.nodes.values():
            n.inc = inc0 - 1        # a whole job started again after its end continues the numbering
        self.now = 0.0
        self.step = step0
        self.max_steps = max_steps
        self.invariant = invariant
        self.mpi = mpi
        self.trace = hashlib.sha256()
        self.log = log
        self.last = None
        self.last_mut_step = 0
        self.last_mut_time = 0.0
        self.violations = []
        self.counts = {}
        self.stop = False
        self.stuck = None
        self.prio = {}
        self.boost = [None, 0]
        self.holds = 0
        self.mutdirs = set()
        self.restart_failed = restart_failed
        self.kills = self.ioerrs = self.stalls = 0
        self.opcount = {}
        self.sched_hash = hashlib.sha256()
        self.probes = {}
        self.io_failed_ranks = set()
        self.dirty_seen = 0

    # ------------------------------------------------------------------ processes
    def spawn(self, n):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (a, b):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 21)
        n.inc += 1
        n.opidx = 0
        n.slow_done = -1
        n.held = None
        n.race = None
        n.io_faulted = False
        n.opened = {}
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                _libc.prctl(1, signal.SIGKILL)
                for o in self.nodes.values():
                    if o.sock is not None:
                        o.sock.close()
                signal.alarm(0)
                dn = os.open(self.cfg.get("stdout", "/dev/null"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(dn, 1); os.dup2(dn, 2)
                cwd = os.path.join(self.root, self.cfg.get("cwd", "cwd"))
                os.makedirs(cwd, exist_ok=True)
                os.chdir(cwd)
                w = wk.Worker(b, self.root, n.rank, n.inc, self.seed, self.cfg)
                if self.mpi:
                    wk.mpi_module()
                n.entry.prepare() if hasattr(n.entry, "prepare") else None
                wk.install(w)
                code, msg = 0, ""
                w.op("start")
                try:
                    n.entry()
                except SystemExit as e:
                    code = 0 if e.code in (None, 0) else 2
                    msg = "exit(%r)" % (e.code,)
                except BaseException as e:
                    code = 1
                    tb = traceback.extract_tb(e.__traceback__)
                    fr = [f for f in tb if "/pycold/" in f.filename]
                    at = fr[-1] if fr else tb[-1]
                    msg = "%s: %s @%s:%s" % (type(e).__name__, str(e).replace(self.root, "<root>")[:300],
                                             os.path.basename(at.filename), at.name)
                w.op("exit", msg, code)
            except BaseException:
                try:
                    traceback.print_exc()
                except Exception:
                    pass
            finally:
                wk._real["kill"](wk._real["getpid"](), signal.SIGKILL)
        b.close()
        a.settimeout(self.cfg.get("hang", 120.0))
        n.sock, n.pid = a, pid
        n.state = "ready"
        self._recv(n)

    def _recv(self, n):
        """wait for the next operation of n (it runs natively until then)"""
        try:
            m = n.sock.recv(1 << 21)
        except (TimeoutError, socket.timeout):
            self._reap(n, kill=True)
            n.state = "failed"
            n.exits.append((n.inc, -2, "no storage operation, sleep or exit within the watchdog"))
            self.violate("hang", "worker %d computes forever" % n.rank)
            return
        if not m:
            st = self._reap(n)
            n.state = "failed"
            n.exits.append((n.inc, -1, "process died: wait status %s" % st))
            n.pending = None
            return
        n.pending = marshal.loads(m)
        kind = n.pending[0]
        n.opidx += 1
        if kind in MUT:
            n.mutidx += 1

    def _reap(self, n, kill=False):
        if n.pid is None:
            return None
        if kill:
            try:
                os.kill(n.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        st = os.waitpid(n.pid, 0)[1]
        n.sock.close()
        n.sock = n.pid = None
        return st

    def kill(self, n, delay=0.0):
        self._reap(n, kill=True)
        n.pending = None
        n.state = "down"
        n.restart_at = self.now + delay
        n.exits.append((n.inc, -9, "killed"))
        self.kills += 1
        self.count("kill")

    def count(self, k, v=1):
        self.counts[k] = self.counts.get(k, 0) + v

    def violate(self, cls, text):
        self.violations.append((cls, text, self.step, round(self.now, 3)))

    # ------------------------------------------------------------------ scheduling
    def runnable(self):
        out = []
        for n in self.nodes.values():
            if n.state == "ready":
                out.append(n)
            elif n.state == "sleeping" and n.wake <= self.now:
                out.append(n)
            elif n.state == "down" and n.restart_at is not None and n.restart_at <= self.now:
                out.append(n)
            elif n.state == "blocked" and self._coll_ready(n):
                out.append(n)
        return out

    def advance(self):
        """nobody can run: jump the clock to the next wake-up or restart"""
        t = [n.wake for n in self.nodes.values() if n.state == "sleeping"] + \
            [n.restart_at for n in self.nodes.values() if n.state == "down" and n.restart_at is not None]
        if not t:
            return False
        self.now = max(self.now, min(t))
        return True

    def default_choice(self, run):
        if self.last is not None:
            for n in run:
                if n.rank == self.last and n.state == "ready":
                    return n
        return min(run, key=lambda n: n.rank)

    def choose(self, run):
        d = self.default_choice(run)
        if self.replay is not None:
            r = self.replay.switches.get(self.step)
            c = next((n for n in run if n.rank == r), d) if r is not None else d
        elif len(run) == 1:
            c = run[0]
        else:
            p = self.policy
            k = p["kind"]
            if k == "uniform":
                c = run[self.rng.randrange(len(run))] if self.rng.random() < p["p"] else d
            elif k == "prio":
                for n in run:
                    if n.rank not in self.prio:
                        self.prio[n.rank] = self.rng.random()
                c = max(run, key=lambda n: (self.prio[n.rank], n.rank))
                if self.rng.random() < p["p"]:
                    self.prio[c.rank] = self.rng.random() * min(self.prio.values())
            elif k == "starve":
                o = [n for n in run if n.rank not in p["ranks"]]
                c = o[self.rng.randrange(len(o))] if o and self.rng.random() < 0.5 else (d if d in o else (o[0] if o else run[self.rng.randrange(len(run))]))
            elif k == "firstlast":      # one rank runs far ahead
                o = [n for n in run if n.rank in p["ranks"]]
                c = o[0] if o else run[self.rng.randrange(len(run))]
            elif k == "mutswitch":      # preempt right before operations that change storage
                hot = d.pending is not None and d.pending[0] in MUT
                c = run[self.rng.randrange(len(run))] if hot and self.rng.random() < p["p"] else d
            else:
                c = d
            if self.boost[1] > 0:           # a worker that was held back goes first for a while
                b = next((n for n in run if n.rank == self.boost[0]), None)
                if b is not None:
                    self.boost[1] -= 1
                    c = b
        if c is not d:
            self.plan.switches[self.step] = c.rank
        return c

    # ------------------------------------------------------------------ collectives
    def _coll_ready(self, n):
        name, idx, root = n.collreq
        posted = [x for x in self.nodes.values() if idx in x.coll]
        if name in ("bcast", "scatter"):
            r = self._by_mpi(root)
            return idx in r.coll
        if name == "gather" and self._mpi_rank(n) != root:
            return True
        return len(posted) == len(self.nodes)

    def _mpi_rank(self, n): return self.cfg["mpi_rank_base"] + n.rank
    def _by_mpi(self, r): return self.nodes[r - self.cfg["mpi_rank_base"]]

    def _coll_value(self, n):
        name, idx, root = n.collreq
        if name == "bcast":
            return self._by_mpi(root).coll[idx][1]
        if name == "scatter":
            return self._by_mpi(root).coll[idx][1]
        if name == "barrier":
            return None
        if name == "gather" and self._mpi_rank(n) != root:
            return None
        return pickle.dumps([pickle.loads(self.nodes[k].coll[idx][1]) for k in sorted(self.nodes)])

    # ------------------------------------------------------------------ main loop
    def run(self):
        try:
            for n in self.nodes.values():
                self.spawn(n)
            self._loop()
        finally:
            for n in self.nodes.values():
                if n.pid is not None:
                    self._reap(n, kill=True)
        return self

    def _loop(self):
        while not self.stop:
            run = self.runnable()
            if not run:
                if not self.advance():
                    waiting = [n.rank for n in self.nodes.values() if n.state == "blocked"]
                    if waiting:
                        self.violate("stuck", "processes %s wait for a collective call that never comes" % waiting)
                    break
                if self._is_stuck():
                    break
                continue
            self.step += 1
            if self.step > self.max_steps:
                self.violate("steps", "more than %d operations" % self.max_steps)
                break
            n = self.choose(run)
            self.last = n.rank
            self.exec(n)
        self.probes["steps"] = self.step

    def _is_stuck(self):
        live = [n for n in self.nodes.values() if n.state not in ("done",)]
        if any(n.state == "down" for n in live) or any(n.state == "ready" for n in live):
            return False
        if self.now - self.last_mut_time < STUCK_TIME:
            return False
        sl = [n for n in live if n.state == "sleeping"]
        if sl and all(n.sleeps >= POLL_LIMIT for n in sl):
            self.stuck = sorted(n.rank for n in sl)
            self.violate("stuck", "workers %s poll forever: nothing on storage changed for %d simulated s" %
                         (self.stuck, int(self.now - self.last_mut_time)))
            return True
        return False

    def _note(self, *a):
        s = repr(a)
        self.trace.update(s.encode())
        if self.log is not None:
            self.log.append(s)

    def reply(self, n, act, val=None):
        n.sock.send(marshal.dumps((self.now, act, val)))
        self._recv(n)

    def exec(self, n):
        if n.state == "down":
            n.restart_at = None
            self._note(self.step, n.rank, "restart", n.inc + 1)
            self.count("restart")
            self.spawn(n)
            return
        if n.state == "sleeping":
            n.state = "ready"
            self._note(self.step, n.rank, "wake", round(self.now, 4))
            n.race = None
            if n.held:
                n.held = None          # end of a stall: its operation is still pending
            else:
                self.reply(n, "go")
            return
        if n.state == "blocked":
            n.state = "ready"
            self._note(self.step, n.rank, "coll", n.collreq)
            self.reply(n, "go", self._coll_value(n))
            return
        kind, path, arg = n.pending
        key = (n.rank, n.inc, n.opidx)
        self.now += 0.001 * n.slow
        self.opcount[kind] = self.opcount.get(kind, 0) + 1
        self.sched_hash.update(b"%d:%s;" % (n.rank, kind.encode()))
        self._note(self.step, n.rank, n.inc, n.opidx, kind, path if kind != "exit" else arg, arg if isinstance(arg, (int, str)) else 0)
        fault = None
        if n.opidx == n.slow_done:
            pass
        elif self.replay is not None:
            fault = self.replay.faults.get(key)
        elif self.faultgen is not None:
            fault = self.faultgen(self, n, kind, path, arg)
        if fault is None and self.replay is None and n.opidx != n.slow_done and self.policy.get("race"):
            fault = self._hold(n, kind, path)
        if fault is not None:
            self.plan.faults[key] = tuple(fault)
            n.slow_done = n.opidx
            if self._fault(n, fault, kind, path, arg):
                return
        if kind == "exit":
            self._exit(n, arg, path)
            return
        if kind == "sleep":
            n.state = "sleeping"
            n.wake = self.now + max(0.0, arg)
            n.sleeps += 1
            return
        if kind == "mpi":
            name, idx, root = path.split(":")
            n.collreq = (name, int(idx), int(root))
            n.coll[int(idx)] = (name, arg)
            for o in self.nodes.values():
                if int(idx) in o.coll and o.coll[int(idx)][0] != name:
                    self.violate("mpi", "mismatched collective calls")
                    self.stop = True
            n.state = "blocked"
            return
        if kind in MUT:
            self.last_mut_step, self.last_mut_time = self.step, self.now
            for o in self.nodes.values():
                o.sleeps = 0
        if kind == "open_r" and any(path in o.opened for o in self.nodes.values() if o is not n and o.pid):
            self.count("probe_read_while_written")
        if kind == "open_w":
            n.opened[path] = 1
        elif kind == "close_w":
            n.opened.pop(path, None)
        self.last_arg = arg
        self.reply(n, "go")
        if kind in MUT:
            self._release(n, path, arg)
        if kind in MUT or kind == "close_w":
            if self.invariant is not None:
                self.invariant(self, n, kind, path)

    def _fault(self, n, fault, kind, path, arg):
        """apply an injected fault to the pending operation; True when the operation is consumed"""
        act = fault[0]
        if act == "kill":
            self._note("kill")
            if self.mpi:
                self.count("kill")
                self.kills += 1
                for o in self.nodes.values():
                    if o.pid:
                        self._reap(o, kill=True)
                    o.state = "failed"
                    o.exits.append((o.inc, -9, "killed"))
                self.stop = True
            else:
                self.kill(n, fault[1])
            if self.invariant is not None:
                self.invariant(self, n, "kill", path)
            return True
        if act == "tear" and (kind == "write" or kind == "gdal_w" and arg == 1000):
            self._note("tear", fault[1])
            k = int(arg * fault[1])
            n.sock.send(marshal.dumps((self.now, "tear", k)))
            self.count("torn_write")
            self._await_death(n, fault[2])
            if self.invariant is not None:
                self.invariant(self, n, "kill", path)
            return True
        if act == "err":
            self._note("err", fault[1])
            self.count("err_" + errno.errorcode.get(fault[1], str(fault[1])))
            self.ioerrs += 1
            n.io_faulted = True
            self.reply(n, "err", fault[1])
            return True
        if act == "short" and kind == "write":
            k = max(1, int(arg * fault[1]))
            if k >= arg:
                return False
            self._note("short", k)
            self.count("short_write")
            self.reply(n, "short", k)
            if self.invariant is not None:
                self.invariant(self, n, kind, path)
            return True
        if act == "hold":
            self._note("hold")
            self.count("hold")
            n.state = "sleeping"
            n.wake = fault[1]
            n.held = True
            n.sleeps = 0
            return True
        if act == "stall":
            self._note("stall", fault[1])
            self.count("stall")
            self.stalls += 1
            n.state = "sleeping"       # the operation happens after the stall
            n.wake = self.now + fault[1]
            n.held = True
            n.sleeps = 0
            return True
        return False

    def _hold(self, n, kind, path):
        """race-directed scheduling: a worker is held back right before an operation on a path until another worker
        changes that path (or for a while, if none does)"""
        r = self.policy["race"]
        if self.holds >= r["max"] or self.step < r["after"] or kind not in r["kinds"] or len(self.nodes) < 2:
            return None
        if not isinstance(path, str) or not path or (r.get("focus") and not any(f in path for f in r["focus"])):
            return None
        if path not in self.mutdirs and os.path.dirname(path) not in self.mutdirs or self.rng.random() >= r["p"]:
            return None
        self.holds += 1
        n.race = (path, (n.rank, n.inc, n.opidx))
        return ("hold", self.now + self.rng.choice([3.0, 20.0, 60.0, 400.0]))

    def _release(self, by, path, arg):
        for q in (path, arg):
            if isinstance(q, str):
                self.mutdirs.add(os.path.dirname(q))
        for n in self.nodes.values():
            if n.race is None or n is by or n.state != "sleeping":
                continue
            p, key = n.race
            if any(isinstance(q, str) and (q == p or q.startswith(p + "/")) for q in (path, arg)):
                n.wake = self.now
                n.race = None
                self.plan.faults[key] = ("hold", self.now)
                self.count("held_until_change")
                if self.rng.random() < 0.7:
                    self.boost = [n.rank, self.rng.choice([1, 3, 10, 30])]

    def _await_death(self, n, delay):
        try:
            n.sock.recv(1 << 21)        # end of file once the process has died
        except OSError:
            pass
        self._reap(n, kill=True)        # at the latest at its next operation
        n.pending = None
        n.exits.append((n.inc, -9, "killed inside a write"))
        self.kills += 1
        if self.mpi:
            n.state = "failed"
            for o in self.nodes.values():
                if o.pid:
                    self._reap(o, kill=True)
                o.state = "failed"
            self.stop = True
            return
        n.state = "down"
        n.restart_at = self.now + delay

    def _exit(self, n, code, msg):
        n.exits.append((n.inc, code, msg))
        self._reap(n, kill=True)
        n.pending = None
        if code == 0:
            n.state = "done"
            return
        if n.io_faulted and self.restart_failed and n.inc - self.inc0 < 12:
            n.state = "down"           # resubmitted by the operator after a reported storage failure
            n.restart_at = self.now + 60.0
            self.count("resubmitted_after_io_error")
            return
        n.state = "failed"
        if self.mpi:
            for o in self.nodes.values():
                if o.pid:
                    self._reap(o, kill=True)
                    o.state = "failed"
            self.stop = True

    # ------------------------------------------------------------------ results
    @property
    def digest(self):
        return self.trace.hexdigest()

    def failed(self):
        return {r: n.exits[-1] for r, n in self.nodes.items() if n.state == "failed" and n.exits}

    def all_done(self):
        return all(n.state == "done" for n in self.nodes.values())
