"""Small executable reference models: what a result must be, computed without any of the job machinery.

The per-pixel detectors are the tree's own (the properties relate the job to the detector); everything
around them (placement, assembly, segmentation, features, classification, export, stacking) is
written out here a second time, in the plainest form."""
import datetime as dt
import numpy as np

NAN = -9999
LAUNCH = 723742


def chi2ppf(p):
    from scipy.stats import chi2
    return chi2.ppf(p, 5)


def mode(v):
    u, c = np.unique(v, return_counts=True)
    return u[np.argmax(c)]          # the smallest of the most frequent


PAR = dict(cm_scale=100, floodfill=0.4, thr={0: 11.07, 1: 11.07, 2: 15.086, 3: 15.086, 4: 11.07, 5: 15.086, 6: 11.07, 7: 15.086, 8: 15.086},
           slope={0: 0.0, 1: 0.1, 2: 0.05, 3: 0.05, 4: 0.1, 5: 0.05, 6: 0.1, 7: 0.05, 8: 0.05})


def params_from_tree():
    """thresholds are configuration of the tree, not part of any property"""
    from pycold.app import defaults
    d = defaults["OBCOLD"]
    p = dict(cm_scale=d["cm_scale"], floodfill=d["floodfill_thres"], thr={0: d["default_threshold"]}, slope={0: d["default_sizeslope"]})
    for k in range(1, 9):
        p["thr"][k] = d["C%d_threshold" % k]
        p["slope"][k] = d["C%d_sizeslope" % k]
    return p


def segment(cm, cmd, cm1, cmd1, P):
    """object maps of one snapshot: cm/cmd current magnitude (x100) and date, cm1/cmd1 the previous snapshot"""
    import cv2
    from astropy.convolution import Gaussian2DKernel, convolve
    from skimage.measure import label as sklabel
    R, C = cm.shape
    peak = chi2ppf(0.90)
    cm1 = np.where(cm1 < peak * P["cm_scale"], NAN, cm1)
    a = np.where(cm == NAN, cm1, cm).astype(float) / P["cm_scale"]
    d = np.where(cmd == NAN, cmd1, cmd)
    a[a < peak * (1 - P["floodfill"])] = np.nan
    g = convolve(a, Gaussian2DKernel(x_stddev=1, y_stddev=1), boundary="extend", preserve_nan=True)
    g[np.isnan(a)] = NAN
    rr, cc = np.where(g > peak)
    order = sorted(range(len(rr)), key=lambda i: g[rr[i], cc[i]], reverse=True)
    stack = np.dstack([g, g, d]).astype(np.float32)
    lab = np.zeros((R, C), np.int64)
    mask = np.zeros((R + 2, C + 2), np.uint8)
    for k, i in enumerate(order):
        r, c = int(rr[i]), int(cc[i])
        if lab[r, c]:
            continue
        before = mask.copy()
        lim = g[r, c] * P["floodfill"]
        cv2.floodFill(stack, mask, (c, r), 0, loDiff=[lim, lim, 60], upDiff=[lim, lim, 60],
                      flags=8 | cv2.FLOODFILL_MASK_ONLY | cv2.FLOODFILL_FIXED_RANGE | (1 << 8))
        new = (mask != before)[1:-1, 1:-1]
        lab[new & (lab == 0)] = k + 1
    patch = sklabel((lab > 0).astype(int), connectivity=2, background=0)
    return lab, patch, g, d


def change_map(lab, patch, g, cls, P):
    out = np.zeros(lab.shape, np.int64)
    size = np.zeros(lab.shape, np.int64)
    for k in np.unique(patch):
        size[patch == k] = (patch == k).sum()
    for k in np.unique(lab):
        if k == 0:
            continue
        m = lab == k
        mean = g[m].sum() / m.sum()
        n = mode(size[m])
        c = 0
        if cls is not None:
            c = int(mode(cls[m]))
            c = c if 1 <= c <= 8 else 0
        scale = min(np.log10(int(n)) * P["slope"][c] + 0.95, 2)
        if mean * scale > P["thr"][c]:
            out[m] = 1
    return out


def break_map(cm, cmd, cm1, cmd1, cls, P):
    """break dates (0: none) of one snapshot over the tile"""
    f = lambda x: np.where(x == NAN, NAN, x.astype(np.int64) + LAUNCH)
    lab, patch, g, d = segment(cm.astype(np.int64), f(cmd), cm1.astype(np.int64), f(cmd1), P)
    ch = change_map(lab, patch, g, cls, P)
    return np.where(d < 0, 0, d) * ch


def features(recs, years, R, C):
    """(years, R, C, 21) a0, a1, b1 of every band on 1 July; recs sorted by pos then time"""
    out = np.full((len(years), R, C, 21), NAN, np.float32)
    by = {}
    for q in recs:
        by.setdefault(int(q["pos"]), []).append(q)
    for pos, l in by.items():
        r, c = (pos - 1) // C, (pos - 1) % C
        for iy, y in enumerate(years):
            day = dt.date(y, 7, 1).toordinal()
            for i, q in enumerate(l):
                upp = q["t_end"] if i == len(l) - 1 else l[i + 1]["t_start"]
                if q["t_start"] <= day < upp:
                    for b in range(7):
                        k = q["coefs"][b]
                        v = (k[0] + k[1] * day / 10000, k[2], k[3])
                        out[iy, r, c, 3 * b:3 * b + 3] = [0 if np.isnan(x) else x for x in v]
                    break
    return out


def train(feat, label):
    """random forest on the training-year features (R, C, 21) with the sampling rule of the tile job"""
    from sklearn.ensemble import RandomForestClassifier
    from pycold.app import defaults
    P = defaults["CLASSIFIER"]
    K = P["total_landcover_category"]
    cnt = np.array([(label == k + 1).sum() for k in range(K)])
    tot = ((label >= 1) & (label <= K)).sum()
    n = np.array([round(x * P["total_samples"] / tot) for x in cnt])
    n = np.minimum(np.clip(n, P["min_category_samples"], P["max_category_samples"]), cnt)
    idx, lab = [], []
    for k in range(K):
        ix = np.argwhere(label == k + 1)
        st = np.random.RandomState(42)
        s = ix[st.choice(len(ix), int(n[k]), replace=False)] if len(ix) else ix
        idx.append(s); lab.append(np.full(len(s), k + 1))
    idx, lab = np.vstack(idx), np.hstack(lab)
    X = np.array([feat[r, c] for r, c in idx]).astype(np.float32)
    rf = RandomForestClassifier(random_state=42, max_depth=20)
    rf.fit(X, lab)
    return rf


def classify(rf, feat):
    """feat (R, C, 21)"""
    R, C, n = feat.shape
    m = rf.predict(feat.reshape(-1, n)).reshape(R, C).astype(np.int64)
    m[np.all(feat == NAN, axis=2)] = 255
    return m


# ------------------------------------------------------------------------------------------ exported maps
def category(method, rec, k, prev):
    """disturbance category of the k-th break of one pixel: 1 land disturbance, 2 regrowth, 3 afforestation, 4 flip-back"""
    m = rec["magnitude"]
    t = 250 if method == "OBCOLD" else 200
    green = m[k][3] > -t and m[k][2] < t and m[k][4] < t
    if green:
        if method == "SCCDOFFLINE" or k + 1 == len(rec):
            return 2
        s0, s1 = rec["coefs"][k][:, 1], rec["coefs"][k + 1][:, 1]
        return 3 if s1[3] > abs(s0[3]) and s1[2] < -abs(s0[2]) and s1[4] < -abs(s0[4]) else 2
    if method == "OBCOLD" and k > 0 and prev == 1 and rec["t_break"][k] - rec["t_break"][k - 1] <= 365.25 * 5:
        if sum(1 for b in range(1, 6) if m[k][b] * m[k - 1][b] < 0) >= 4:
            return 4
    return 1


def coefficient(rec, year, july1, band, name):
    """value of a coefficient layer at one pixel and the tolerated rounding; None where there is none"""
    if name == "cv":
        for c in rec:
            if c["t_break"] and c["change_prob"] == 100 and dt.date.fromordinal(int(c["t_break"])).year == year:
                return float(c["magnitude"][band]), 1e-3
        return None, 0
    for k, c in enumerate(rec):
        end = int(rec[k + 1]["t_start"]) if k + 1 < len(rec) else dt.date(dt.date.fromordinal(int(c["t_end"])).year, 12, 31).toordinal()
        if int(c["t_start"]) <= july1 < end:
            q = [float(x) for x in c["coefs"][band]]
            if name == "a0":
                v, t = q[0] + q[1] * july1 / 10000.0, 1e-6 * (abs(q[0]) + abs(q[1] * july1 / 10000.0)) + 1e-3
            elif name == "c1":
                v, t = q[1] / 10000.0, 1e-6
            elif name == "rmse":
                v, t = float(c["rmse"][band]), 1e-3
            else:
                v, t = q[{"a1": 2, "b1": 3, "a2": 4, "b2": 5, "a3": 6, "b3": 7}[name]], 1e-3
            return (0.0 if np.isnan(v) else v), (1e-3 if np.isnan(t) else t)
    return None, 0
