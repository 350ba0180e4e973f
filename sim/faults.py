"""seeded fault generator: decides, operation by operation, what goes wrong"""
import errno, random


class FaultGen:
    """spec: kill/tear/short/stall/werr/rerr = probabilities per eligible operation, max_* = budgets,
    focus = bias towards operations whose path contains one of these strings, delay = restart delay range"""

    def __init__(self, seed, spec):
        self.s = spec
        self.r = random.Random("fault-%s" % seed)
        self.kills = self.errs = self.stalls = self.shorts = 0
        self.last = 0.0

    def __call__(self, sim, n, kind, path, arg):
        s, r = self.s, self.r
        from .worker import MUTATING
        w = 1.0
        if s.get("focus"):
            p = path if isinstance(path, str) else ""
            w = 8.0 if any(f in p for f in s["focus"]) else 0.5
        x = r.random()
        mut = kind in MUTATING
        if kind == "exit":                  # the worker is lost (and started again) when it had just finished
            if arg == 0 and self.kills < s.get("max_kills", 0) and r.random() < s.get("kill_exit", 0.05):
                self.kills += 1
                return ("kill", r.choice([0.0, 10.0, 4000.0]) * r.random())
            return None
        kr = s.get("kill", 0) * w * (1.0 if mut else s.get("kill_nonmut", 0.15))
        if self.kills < s.get("max_kills", 0) and x < kr:
            self.kills += 1
            d = r.choice([0.0, 1.0, 20.0, 40.0, 200.0]) * r.random()
            if (kind == "write" or kind == "gdal_w" and arg == 1000) and r.random() < 0.7:
                return ("tear", r.random(), d)
            return ("kill", d)
        x = r.random()
        if self.errs < s.get("max_errs", 0) and not (s.get("errpaths") and not any(path.startswith(q) for q in s["errpaths"])):
            if (mut and kind not in ("trunc",)) and x < s.get("werr", 0) * w:
                self.errs += 1
                if kind in ("write", "open_w", "mkdir", "rename", "link", "gdal_w"):
                    return ("err", r.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT]))
                return ("err", errno.EIO)
            if kind in ("open_r", "list") and x < s.get("rerr", 0) * w:
                self.errs += 1
                return ("err", r.choice([errno.EIO, errno.EMFILE, errno.ESTALE]))
        if kind == "write" and arg and arg > 1 and self.shorts < s.get("max_shorts", 0) and r.random() < s.get("short", 0):
            self.shorts += 1
            return ("short", r.random())
        if kind != "sleep" and self.stalls < s.get("max_stalls", 0) and r.random() < s.get("stall", 0) * w:
            self.stalls += 1
            return ("stall", r.choice([10.0, 40.0, 400.0]) * r.random())
        return None
