"""Pixel series and small helpers around the detectors (helper of the demonstrations)."""
import os, sys, threading
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(os.getcwd(), "src/python"))
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import numpy as np
from pycold import cold_detect, obcold_reconstruct, sccd_detect, sccd_update, sccd_identify
from pycold.common import SccdOutput

D0 = 730000


def pixel(n=150, step=12, seed=1, breaks=(), level=1.0, noise=20, clouds=0.1, dates=None, snow=0.0):
    """[dates, 7 bands, quality]; breaks: [(index, size)]"""
    rng = np.random.default_rng(seed)
    d = D0 + step * np.arange(n) if dates is None else np.asarray(dates)
    n = len(d)
    base = level * np.array([400, 600, 700, 2500, 1800, 1000, 2900.0])
    X = base + 0.1 * base * np.cos(2 * np.pi * (d - D0) / 365.25)[:, None] + rng.normal(0, noise, (n, 7))
    for i, s in breaks:
        X[i:, :6] += s * np.array([300, 400, 600, -900, 900, 900])
    q = np.where(rng.random(n) < clouds, 4, 0)
    q[rng.random(n) < snow] = 3
    X[q == 4, :6] += 2500
    X = np.rint(X).astype(np.int64)
    return [d.astype(np.int64)] + [np.ascontiguousarray(X[:, k]) for k in range(7)] + [q.astype(np.int64)]


def cut(a, lo, hi=None):
    return [x[lo:hi].copy() for x in a]


def raw(x):
    """comparable content of any detector result"""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return tuple(raw(x[n]) for n in x.dtype.names)
        return (str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(raw(y) for y in x)
    return repr(x)


def call(f, *a, **k):
    try:
        return ("ok", raw(f(*a, **k)))
    except Exception as e:
        return ("error", type(e).__name__, str(e))


def check(ok, text):
    if not ok:
        print("FAIL: " + text)
        sys.exit(1)
