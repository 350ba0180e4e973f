"""Seeded pixel series: the inputs of the native detectors, in many regimes."""
import random
import numpy as np

T0 = 723742 + 400          # first possible date (1983); all short-typed dates of the state stay positive
FIELDS = ("b", "g", "r", "n", "s1", "s2", "t", "q")


def series(seed, kind=None, years=None, step=None, start=None):
    """dict with 'dates' and the 8 series (int64)"""
    r = random.Random("px-%s" % (seed,))
    kind = kind or r.choice(KINDS)
    tiny = kind == "tiny"
    if kind == "unstable" and r.random() < 0.6:
        years, step = max(years or 0, r.choice([4.0, 6.0, 8.0])), 4
    years = years or r.choice([2.0, 3.0, 4.0, 6.0, 9.0, 12.0])
    step = step or r.choice([4, 8, 8, 12, 16])
    if kind == "many":
        years, step, start = r.choice([32.0, 60.0, 75.0]), r.choice([6, 8, 10]), start or T0
    d = (start or T0 + r.randrange(0, 6000))
    n = max(2, int(years * 365.25 / step))
    if tiny:
        n = r.randrange(1, 24)
    dates = []
    for _ in range(n):
        d += max(1, int(round(step * r.choice([1, 1, 1, 1, 2, 0.5, 0.25]))))
        dates.append(d)
        if kind == "dup" and r.random() < 0.15:
            dates.append(d)
    if kind == "gap" and n > 10:
        a = r.randrange(3, n - 3)
        g = r.choice([200, 400, 800])
        dates = dates[:a] + [x + g for x in dates[a:]]
    n = len(dates)
    dd = np.array(dates)
    w = 2 * np.pi / 365.25 * dd
    base = np.array([r.randrange(100, 900), r.randrange(200, 1000), r.randrange(200, 1200), r.randrange(1500, 4500),
                     r.randrange(800, 2600), r.randrange(400, 1800), r.randrange(2700, 3050)], float)
    amp = base * r.uniform(0.02, 0.3)
    amp[6] = r.uniform(20, 150)
    noise = r.choice([5, 15, 40, 90])
    st = np.random.RandomState(r.randrange(2 ** 31))
    X = base + np.outer(np.cos(w + r.uniform(0, 6)), amp) + st.randn(n, 7) * noise
    X += np.outer((dd - dd[0]) / 365.25, st.randn(7) * r.choice([0, 5, 25]))
    nb = {"stable": 0, "green": 0, "break1": 1, "breaks": r.randrange(2, 5), "late": 1, "passing": 0, "rough": 0}.get(kind, r.choice([0, 0, 1, 1, 2]))
    for b in range(nb):
        i = n - r.randrange(3, 14) if kind == "late" and n > 20 else r.randrange(max(1, n // 5), max(2, n - 2))
        s = r.choice([-1, 1, 1]) * r.choice([1.0, 3.0, 8.0])
        X[i:, :6] += s * np.array([60, 80, 120, -250, 200, 160]) * r.uniform(0.6, 1.4)
        if r.random() < 0.3:
            X[i:, 6] += r.uniform(-60, 60)
    if kind == "early":
        k = min(n - 1, r.choice([1, 2, 3, 4, 5, 6, 6, 7, 7, 8]))
        X[:k, :6] += r.choice([-1, 1]) * r.choice([150, 400, 1200]) * r.uniform(0.7, 1.3)
    if kind == "many":
        w, i, s = r.choice([380, 410, 450]), 0, 1
        while i < n:
            j = int(np.searchsorted(dd, dd[i] + w * r.uniform(0.97, 1.1)))
            X[i:j, :6] += s * np.array([200, 250, 300, -700, 600, 500])
            i, s = max(j, i + 1), -s
    if kind == "passing":           # disturbances that are over after a few observations
        i = n // 2 + r.randrange(8)
        while i + 6 < n:
            k = r.choice([1, 2, 3, 3, 4])
            X[i:i + k, :6] += r.choice([1, 1, -1]) * np.array([60, 80, 120, -250, 200, 160]) * r.choice([1.0, 3.0, 6.0])
            i += k + r.randrange(8, 22)
    if kind == "green":
        i = n - r.randrange(2, 16) if n > 20 else n // 2
        X[i:, :6] += r.choice([1, 1, -1]) * np.array([-40, -50, -80, 300, -120, -100]) * r.uniform(0.8, 4)
        if r.random() < 0.3:
            X[i:, 5] += r.choice([-300, 500])
        for j in range(i, n):
            if r.random() < 0.2:
                X[j, [2, 4]] += r.choice([800, 4000]) * np.array([1, 1.3])
                X[j, 3] -= r.choice([0, 3000])
    if kind == "unstable":
        lev, j = 0.0, 0
        while j < n:
            k = j + r.choice([1, 1, 2, 3, 5, 12])
            X[j:k, :6] += lev * np.array([60, 80, 120, 250, 200, 160])
            j, lev = k, r.uniform(-4, 8)
    if kind == "rough":             # values all over the range: errors of the largest size
        X[:, :6] = 5000 + st.choice([-1, 1], n)[:, None] * st.randint(3500, 4800, (n, 6))
    q = np.zeros(n, np.int64)
    cloud = r.choice([0.0, 0.1, 0.3, 0.6]) if kind != "many" else r.choice([0.0, 0.1])
    for i in range(n):
        if r.random() < cloud:
            q[i] = r.choice([2, 4, 4, 4, 3])
            X[i, :6] += r.choice([800, 2500, -300])
        elif r.random() < 0.05:
            q[i] = 1
    if kind == "rough":
        q[:] = r.choice([0, 0, 3])
    if kind == "snow":
        p = r.choice([0.75, 0.85, 0.97])
        for i in range(n):
            if r.random() < p:
                q[i] = 3
                X[i, :6] = st.randint(4000, 9000, 6)
    elif kind == "sparse":
        keep = r.choice([0, 3, 7, 11, 13, 20])
        ok = set(r.sample(range(n), min(n, keep)))
        for i in range(n):
            if i not in ok:
                q[i] = 4
    elif kind == "fill":
        for i in range(n):
            if r.random() < 0.3:
                q[i] = 255
                X[i] = -9999
    elif kind == "spikes":
        for i in range(n):
            if r.random() < 0.08:
                X[i, r.randrange(7)] *= r.choice([0.0, -1.0, 3.0, 10.0])
    elif kind == "const":
        X[:] = base
    elif kind == "wild":
        X[:] = st.randint(-2000, 14000, (n, 7))
        X[:, 6] = st.randint(1500, 4000, n)
        q = st.choice([0, 0, 0, 1, 2, 3, 4, 255], n).astype(np.int64)
    X = np.clip(np.rint(X), -30000, 30000).astype(np.int64)
    out = {"dates": np.array(dates, np.int64), "kind": kind}
    for i, k in enumerate(FIELDS[:7]):
        out[k] = np.ascontiguousarray(X[:, i])
    out["q"] = q
    return out


def relative(s, how, seed):
    """changes a series into that of a similar pixel: same dates, same first and last observation"""
    r = random.Random("kin-%s" % seed)
    n = len(s["dates"])
    if n < 4:
        return
    st = np.random.RandomState(r.randrange(2 ** 31))
    if how == "noise":
        for k in FIELDS[:7]:
            s[k][1:-1] += np.rint(st.randn(n - 2) * r.choice([3, 30, 120])).astype(np.int64)
    elif how == "one":
        i = r.randrange(1, n - 1)
        for k in FIELDS[:6]:
            s[k][i] += r.choice([-900, 700, 2500])
    elif how == "swap":             # same values, other order
        i, j = r.sample(range(1, n - 1), 2)
        for k in FIELDS:
            s[k][i], s[k][j] = s[k][j], s[k][i]
    elif how == "level":
        i = r.randrange(1, n - 1)
        for k, d in zip(FIELDS[:6], (60, 80, 120, -250, 200, 160)):
            s[k][i:-1] += d * r.choice([1, 3])
    elif how == "clouds":           # as many clear observations, other ones
        c, o = [i for i in range(1, n - 1) if s["q"][i] < 2], [i for i in range(1, n - 1) if s["q"][i] >= 2]
        for i, j in zip(r.sample(c, min(len(c), len(o), 5)), r.sample(o, min(len(c), len(o), 5))):
            s["q"][i], s["q"][j] = s["q"][j], s["q"][i]
    elif how == "band":
        k = r.choice(FIELDS[:6])
        s[k][1:-1] += np.rint(st.randn(n - 2) * 80).astype(np.int64)


KINDS = ["stable", "break1", "breaks", "late", "gap", "dup", "snow", "sparse", "fill", "spikes", "const", "wild", "break1", "breaks", "early", "early", "tiny", "unstable"]
RARE = ["many"]


def args(s, lo=0, hi=None):
    """the nine positional arguments of a detector, fresh copies"""
    return [s["dates"][lo:hi].copy()] + [s[k][lo:hi].copy() for k in FIELDS]
