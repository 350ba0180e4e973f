"""Workload data: synthetic pixel histories, tiles and stacks."""
import datetime as dt
import numpy as np

BASE = np.array([400, 600, 700, 2500, 1800, 1000, 2900], float)
BREAK = np.array([300, 400, 600, -900, 900, 900, 50], float)


def pixel(rng, dates, kind):
    """one pixel's history: (n_obs, 8) int16 = 7 bands + quality code"""
    n = len(dates)
    w = 2 * np.pi / 365.25
    t = dates - dates[0]
    base = BASE * rng.uniform(0.8, 1.2, 7)
    amp = rng.uniform(0.05, 0.2, 7) * base
    ph = rng.uniform(-0.3, 0.3, 7)
    y = base + amp * np.cos(w * t[:, None] + ph) + rng.normal(0, 25, (n, 7))
    y += (rng.uniform(-60, 60, 7) / 1461.0) * t[:, None]
    span = max(int(t[-1]), 1)
    if kind in ("break", "break2"):
        tb = rng.uniform(0.4, 0.7) * span
        sgn = rng.choice([1.0, 1.0, -0.7])
        y += np.where(t[:, None] > tb, sgn * BREAK * rng.uniform(0.8, 1.5), 0)
        if kind == "break2":
            tb2 = tb + rng.uniform(0.2, 0.3) * span
            y += np.where(t[:, None] > tb2, -sgn * BREAK * rng.uniform(0.8, 1.5), 0)
    if kind == "late":
        tb = span - rng.uniform(20, 120)
        y += np.where(t[:, None] > tb, BREAK * 1.5, 0)
    qa = np.zeros(n, int)
    qa[rng.random(n) < rng.uniform(0.05, 0.25)] = 4
    if kind == "few":
        qa[rng.random(n) < 0.93] = 4
    if kind == "snow":
        qa[rng.random(n) < 0.85] = 3
    if kind == "water":
        qa[qa == 0] = 1
        y *= 0.2
    if kind == "fill":
        qa[rng.random(n) < 0.5] = 255
    if kind == "none":
        qa[:] = 4
    out = np.empty((n, 8), np.int16)
    out[:, :7] = np.clip(np.round(y), -2000, 16000)
    sh = rng.random(n) < 0.04
    qa = np.where(sh & (qa == 0), 2, qa)
    out[qa == 255, :7] = -9999
    out[qa == 4, :7] = np.clip(out[qa == 4, :7].astype(int) + 2500, -2000, 16000)
    if kind == "odd":                       # out-of-range values among clear observations
        bad = rng.random(n) < 0.08
        out[bad, rng.integers(0, 7)] = rng.choice([-9999, 0, 20000])
    out[:, 7] = qa
    return out


KINDS = ["stable", "break", "break", "break2", "late", "few", "snow", "water", "fill", "none", "odd"]


def ymd(o):
    d = dt.date.fromordinal(int(o))
    return d.year, (d - dt.date(d.year, 1, 1)).days + 1


class Tile:
    """a tile: dates x rows x cols x 8, with some scenes absent from some blocks"""

    def __init__(self, seed, rows, cols, nbx, nby, years=3.0, step=16, start_year=2000, empty=0, ties=True,
                 kinds=None, same=0.0, patchy=True, july=False):
        rng = np.random.default_rng(seed)
        self.rows, self.cols, self.nbx, self.nby = rows, cols, nbx, nby
        self.bw, self.bh = cols // nbx, rows // nby
        d0 = dt.date(start_year, 1, 1).toordinal() + int(rng.integers(0, 60))
        ds = np.arange(d0, d0 + int(365 * years), step)
        ds = ds + rng.integers(0, max(step // 2, 1), len(ds))
        ds = ds[rng.random(len(ds)) < 0.95]
        if july:                                # one scene taken on 1 July of every year
            for y in range(start_year, start_year + int(years) + 1):
                j = dt.date(y, 7, 1).toordinal()
                if ds[0] <= j <= ds[-1]:
                    ds[np.argmin(abs(ds - j))] = j
        names = []
        scenes = [(int(d), "L") for d in ds]
        if ties:
            for d in rng.choice(ds, 3, replace=False):
                scenes.append((int(d), "S"))
            for d in rng.choice(ds, 5, replace=False):
                scenes.append((int(d) + int(rng.integers(1, 5)), "S"))
        scenes = sorted(set(scenes))
        self.scenes = []
        for o, s in scenes:
            y, j = ymd(o)
            self.scenes.append((o, "%s30T18TYM%04d%03dHLSv2" % (s, y, j)))
        sd = np.array([o for o, _ in self.scenes])
        self.sd = sd
        kinds = kinds or KINDS
        self.data = np.empty((len(sd), rows, cols, 8), np.int16)
        self.kind = {}
        # spatially coherent kinds make change objects larger than one pixel
        for r in range(rows):
            for c in range(cols):
                if patchy and c > 0 and rng.random() < 0.5:
                    k = self.kind[(r, c - 1)]
                elif patchy and r > 0 and rng.random() < 0.5:
                    k = self.kind[(r - 1, c)]
                else:
                    k = kinds[int(rng.integers(0, len(kinds)))]
                self.kind[(r, c)] = k
                prng = np.random.default_rng([seed, r, c]) if not patchy else np.random.default_rng([seed, KINDS.index(k) if k in KINDS else 0])
                px = pixel(prng, sd, k)
                if patchy:
                    px = px.copy()
                    ok = px[:, 0] > -9000
                    jit = rng.integers(-15, 16, (len(sd), 7))
                    px[ok, :7] = np.clip(px[ok, :7].astype(int) + jit[ok], -9999, 20000)
                self.data[:, r, c, :] = px
        blocks = [(x, y) for y in range(1, nby + 1) for x in range(1, nbx + 1)]
        self.blocks = blocks
        self.empty = set()
        for _ in range(empty):
            self.empty.add(blocks[int(rng.integers(0, len(blocks)))])
        # which scene exists in which block
        self.present = {}
        for b in blocks:
            m = rng.random(len(sd)) < rng.choice([1.0, 0.97, 0.9])
            if b in self.empty:
                m[:] = False
            self.present[b] = m

    def block(self, b):
        x, y = b
        return self.data[:, (y - 1) * self.bh:y * self.bh, (x - 1) * self.bw:x * self.bw, :]

    def pixel_series(self, r, c, low=0, upp=0):
        """(dates, (n,8)) of tile pixel r,c (0-based) as a user would assemble it by hand"""
        b = (c // self.bw + 1, r // self.bh + 1)
        m = self.present[b].copy()
        if low:
            m &= self.sd >= low
        if upp:
            m &= self.sd <= upp
        return self.sd[m], self.data[m, r, c, :]

    def write(self, stack):
        import os
        os.makedirs(stack)
        for b in self.blocks:
            d = os.path.join(stack, "block_x%d_y%d" % b)
            os.mkdir(d)
            blk = self.block(b)
            for i, (o, nm) in enumerate(self.scenes):
                if self.present[b][i]:
                    np.save(os.path.join(d, nm + ".npy"), np.ascontiguousarray(blk[i]))
        with open(os.path.join(stack, "starting_last_dates.txt"), "w") as f:
            f.write("%d\n%d\n" % (self.sd[0], self.sd[-1]))

    def yaml(self, path, conse=6, interval=32, prob=0.99):
        with open(path, "w") as f:
            f.write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n"
                    "ALGORITHMINFO:\n  conse: %d\n  CM_OUTPUT_INTERVAL: %d\n  probability_threshold: %s\n"
                    % (self.rows, self.cols, self.nbx, self.nby, conse, interval, prob))
