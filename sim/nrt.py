"""C10: near-real-time monitoring histories: batches, stored states, restarts, lost and repeated updates."""
import os, pickle, random, shutil, tempfile
import numpy as np

from . import native as nv, pixels
from .native import Res, isolated, digest, bits

MODES = (0, 1, 2, 3, 4, 5, 11, 12)


def norm(p):
    """a monitoring state independent of container types"""
    f = lambda x: float(x).hex()

    def rec(a, names):
        out = []
        for r in a:
            out.append(tuple(tuple(np.asarray(r[n] if hasattr(r, "dtype") else r[i]).ravel().tolist()) for i, n in enumerate(names)))
        return repr(out)
    from pycold.common import sccd_dt, nrtmodel_dt, nrtqueue_dt
    return (int(p.position), rec(p.rec_cg, sccd_dt.names), tuple(int(x) for x in p.min_rmse), int(p.nrt_mode),
            rec(p.nrt_model, nrtmodel_dt.names), rec(p.nrt_queue, nrtqueue_dt.names))


def store(p, fmt, d):
    from pycold import utils, common
    from pycold.common import sccd_dt, nrtmodel_dt, nrtqueue_dt, SccdOutput
    if fmt == "pickle":
        return pickle.loads(pickle.dumps(p, -1))
    if fmt == "list":
        return utils.index_sccdpack(pickle.loads(pickle.dumps(utils.unindex_sccdpack(p), -1)))
    if fmt == "files":
        class Csv:
            def to_csv(self, *a, **k):
                pass
        utils.save_nrtfiles(d, "x", p, Csv())
        rd = lambda n, dt: np.fromfile(os.path.join(d, "sccd_packx_" + n), dt)
        m = int(rd("nrt_mode", np.asarray(p.nrt_mode).dtype)[0])
        return SccdOutput(p.position, rd("rec_cg", sccd_dt), rd("min_rmse", np.short), m, rd("nrt_model", nrtmodel_dt), rd("nrt_queue", nrtqueue_dt))
    if fmt == "npy":
        out = {}
        for n in ("rec_cg", "min_rmse", "nrt_model", "nrt_queue"):
            f = os.path.join(d, n + ".npy")
            np.save(f, getattr(p, n))
            out[n] = np.load(f)
        return p._replace(**out)
    raise ValueError(fmt)


FMTS = ("pickle", "list", "files", "npy")


def checks(seen, prev, p, L, note):
    """what must hold of a state after the observations `seen` (date -> list of value tuples) were delivered"""
    bad = []
    if int(p.nrt_mode) not in MODES:
        bad.append(("state", "state has the unknown mode %d" % p.nrt_mode))
    have = lambda d: (int(d) + L) in seen
    q = p.nrt_queue
    for k in range(len(q)):
        d = int(q[k]["clrx_since1982"])
        if not have(d):
            bad.append(("invent", "queue holds an observation of day %d, which was never delivered" % (d + L)))
            break
        v = tuple(int(x) for x in q[k]["clry"])
        if v not in seen[d + L]:
            bad.append(("invent", "queue holds values for day %d that were never delivered" % (d + L)))
            break
    ds = [int(x) for x in q["clrx_since1982"]] if len(q) else []
    if ds != sorted(ds):
        bad.append(("order", "queue is not in date order"))
    if len(ds) > 240:
        bad.append(("state", "queue is longer than its capacity"))
    for m in p.nrt_model:
        if not have(m["t_start_since1982"]):
            bad.append(("invent", "model starts on day %d, which was never delivered" % (int(m["t_start_since1982"]) + L)))
        for j in range(8):
            d = int(m["obs_date_since1982"][j])
            if d == 0 or d == -9999:
                continue
            if not have(d):
                bad.append(("invent", "model holds an observation of day %d, which was never delivered" % (d + L)))
                break
            v = tuple(int(m["obs"][b][j]) for b in range(6))
            if v not in seen[d + L]:
                bad.append(("invent", "model holds values for day %d that were never delivered" % (d + L)))
                break
    last = None
    for r in p.rec_cg:
        a, b = int(r["t_start"]), int(r["t_break"])
        if a not in seen or b not in seen:
            bad.append(("invent", "segment %d..%d begins or breaks on a day without observation" % (a, b)))
        if not a < b:
            bad.append(("order", "segment %d..%d does not begin before its break" % (a, b)))
        if last is not None and a < last:
            bad.append(("order", "segment %d..%d begins before the previous break %d" % (a, b, last)))
        last = b
    if prev is not None:
        n = len(prev.rec_cg)
        if len(p.rec_cg) < n:
            bad.append(("lost", "%d of %d closed segments are gone" % (n - len(p.rec_cg), n)))
        elif n and bits(prev.rec_cg) != bits(p.rec_cg[:n]):
            bad.append(("altered", "a closed segment was changed by a later update"))
    return bad


def newest(a, k, e, p, L, seen_before):
    """a batch whose last observation is beyond doubt clear and valid: the state must hold that observation"""
    j = e - 1
    d = int(a[0][j])
    if a[8][j] != 0 or d in seen_before or not 2000 < a[7][j] < 3300 or not all(0 < a[1 + b][j] < 10000 for b in range(6)):
        return []
    st = set(int(x) for x in p.nrt_queue["clrx_since1982"]) if len(p.nrt_queue) else set()
    for m in p.nrt_model:
        st |= set(int(x) for x in m["obs_date_since1982"])
    if d - L in st:
        return []
    return [("forgotten", "the newest delivered observation (day %d, clear) is in neither queue nor model" % d)]


def beyond_doubt(a, j, snow):
    """an observation the detector has no ground to set aside"""
    return (a[8][j] < 2 or snow and a[8][j] == 3) and 2000 < a[7][j] < 3300 and all(0 < a[1 + b][j] < 10000 for b in range(6))


def predict(co, d):
    w = 2 * np.pi / 365.25 * d
    return co[:, 0] + co[:, 1] * d / 10000. + co[:, 2] * np.cos(w) + co[:, 3] * np.sin(w) + co[:, 4] * np.cos(2 * w) + co[:, 5] * np.sin(2 * w)


def residuals(m, min_rmse, obs):
    """[(day, values)] -> differences from the model in units of its error, per observation and lasso band"""
    n = int(m["num_obs"])
    dof = n - (6 if n >= 18 else 4)
    if dof <= 0:
        return None
    rm = np.maximum(np.sqrt(m["rmse_sum"].astype(float) / dof), np.asarray(min_rmse).astype(float))
    if not (rm > 0).all():
        return None
    co = m["nrt_coefs"].astype(float)
    return [((np.asarray(v, float) - predict(co, d)) / rm)[1:6] for d, v in obs]


def tail_of(m, L):
    return [(int(x) + L, tuple(int(m["obs"][b][i]) for b in range(6))) for i, x in enumerate(m["obs_date_since1982"]) if x]


def follow(a, k, e, p, q, L, conse):
    """what an update keeps: nothing delivered is forgotten, nothing is counted twice (p, batch k..e) -> q"""
    m0, m1 = int(p.nrt_mode), int(q.nrt_mode)
    closed = len(q.rec_cg) - len(p.rec_cg)
    snow = m0 in (3, 4)
    new = sorted({int(a[0][j]) for j in range(k, e) if beyond_doubt(a, j, snow)})
    most = len({int(a[0][j]) for j in range(k, e) if a[8][j] < 2 or snow and a[8][j] == 3})
    days = lambda x: [int(v) + L for v in x["clrx_since1982"]] if len(x) else []
    Q0, Q1 = days(p.nrt_queue), days(q.nrt_queue)
    B0 = [d for d, v in tail_of(p.nrt_model[0], L)] if len(p.nrt_model) else []
    B1 = [d for d, v in tail_of(q.nrt_model[0], L)] if len(q.nrt_model) else []
    bad = []
    waiting = m0 % 10 in (2, 5) or m0 == 4
    if waiting and m1 != 1 and m1 != 3 and closed == 0:
        have = sorted(set(Q0) | set(new))
        upper = len(set(Q0)) + most
        if upper < 18 or (have and have[-1] - have[0] < 360 and max(int(a[0][e - 1]), have[-1]) - have[0] < 360 and not snow):
            miss = sorted(set(have) - set(Q1))
            if miss:
                bad.append(("forgotten", "waiting observations are too few for a model, yet %d of %d are gone (first: day %d; mode %d to %d)" % (len(miss), len(have), miss[0], m0, m1)))
    if closed > 0 and m1 % 10 in (2, 5):
        tb = int(q.rec_cg[-1]["t_break"])
        since = sorted(d for d in (set(Q0 if waiting else B0) | set(int(a[0][j]) for j in range(k, e))) if d >= tb)
        if len(since) < 18 or since[-1] - tb < 360:
            miss = sorted(set(d for d in (set(Q0 if waiting else B0) | set(new)) if d >= tb) - set(Q1))
            if not Q1 or Q1[0] != tb or miss:
                bad.append(("forgotten", "after a break on day %d the queue starts on %s and lacks %s" % (tb, Q1[0] if Q1 else None, miss)))
    if m0 % 10 == 1 and closed > 0 and int(q.rec_cg[len(p.rec_cg)]["t_start"]) != int(p.nrt_model[0]["t_start_since1982"]) + L:
        bad.append(("altered", "the closed segment starts on day %d, its model started on day %d" % (int(q.rec_cg[len(p.rec_cg)]["t_start"]), int(p.nrt_model[0]["t_start_since1982"]) + L)))
    if m0 % 10 == 1 and m1 % 10 == 1 and closed == 0:
        x, y = p.nrt_model[0], q.nrt_model[0]
        if x["t_start_since1982"] != y["t_start_since1982"]:
            bad.append(("altered", "an update moves the start of the model"))
        if B1 != sorted(set(B1)) or len(B1) != conse:
            bad.append(("order", "the model's latest observations %s are not %d in time order" % (B1, conse)))
        dn = int(y["num_obs"]) - int(x["num_obs"])
        first = {}
        for j in range(k, e):
            if int(a[0][j]) in new:
                first.setdefault(int(a[0][j]), tuple(int(a[1 + b][j]) for b in range(6)))
        obs = dict(tail_of(x, L))
        for d in new:
            obs.setdefault(d, first[d])
        new_ = [d for d in new if d not in B0]
        z = residuals(x, p.min_rmse, sorted(obs.items()))
        odd = most if z is None else sum(1 for v in z if abs(v).max() >= 1)
        if dn > most:
            bad.append(("twice", "an update with at most %d usable observations adds %d to the model" % (most, dn)))
        if e - k <= 3 and dn < len(new_) - odd:
            bad.append(("forgotten", "an update with %d usable observations, at most %d of them unlike the model, adds %d to the model" % (len(new_), odd, dn)))
    if m0 == 3 and m1 == 3:
        miss = [d for d in new if not B1 or d >= B1[0] and d not in B1]
        if B1 != sorted(set(B1)) or miss:
            bad.append(("forgotten", "snow model: latest observations %s lack day(s) %s" % (B1, miss)))
    return bad


COUNT = {}


def count(k, n=1):
    if n:
        COUNT[k] = COUNT.get(k, 0) + n


Q_STATE = 0.1           # noise of the state-space model's state
T_NOISE = 25.7448       # beyond this a single observation is set aside as noise (chi-square, 5 bands, 0.9999)


def decision(p, L, tcg):
    """what the rules of the method make of a monitored state's oldest waiting observation once another one follows:
    'break', 'noise', 'regular', or None (too close to a threshold to say); and the window it is judged by"""
    m = p.nrt_model[0]
    tail = tail_of(m, L)
    z = residuals(m, p.min_rmse, tail)
    if z is None or len(tail) < 1:
        return None, None
    N = [float((v * v).sum()) for v in z]
    if len(N) > 1:
        ang = float(np.mean([np.degrees(np.arccos(np.clip(z[i].dot(z[i + 1]) / np.sqrt(max(1e-12, N[i] * N[i + 1])), -1, 1))) for i in range(len(N) - 1)]))
    else:
        ang = 0.0
    lo = min(N)
    if abs(lo - tcg) < 0.02 * tcg or (lo > tcg and abs(ang - 45) < 1):
        return None, tail
    if lo > tcg and ang < 45:
        return "break", tail
    if abs(N[0] - T_NOISE) < 0.02 * T_NOISE:
        return None, tail
    return ("noise" if N[0] > T_NOISE else "regular"), tail


def state_space(co, P, H, d, obs, gap):
    """one step of the method's state-space model for one band: the observation of day d (None: none usable), then
    `gap` days; -> (coefficients, covariance, innovation)"""
    w = 2 * np.pi / 365.25
    c, s, c2, s2 = np.cos(w), np.sin(w), np.cos(2 * w), np.sin(2 * w)
    T = np.eye(6)
    T[0, 1] = 1
    T[2:4, 2:4] = [[c, s], [-s, c]]
    T[4:6, 4:6] = [[c2, s2], [-s2, c2]]
    Z = np.array([1., 0, 1, 0, 1, 0])
    Q = np.eye(6) * Q_STATE
    Q[1, 1] = Q_STATE / 1e6
    vt = 0.0
    P = np.triu(P) + np.triu(P, 1).T
    if obs is not None:
        cd, sd, cd2, sd2 = np.cos(w * d), np.sin(w * d), np.cos(2 * w * d), np.sin(2 * w * d)
        x = np.array([co[0] + co[1] * d / 10000., co[1] / 10000., co[2] * cd + co[3] * sd, co[3] * cd - co[2] * sd,
                      co[4] * cd2 + co[5] * sd2, co[5] * cd2 - co[4] * sd2])
        k = P @ Z
        f = Z @ k + H
        vt = obs - Z @ x
        x = x + k * vt / f
        P = P - np.outer(k, k) / f
        co = np.array([x[0] - x[1] * d, x[1] * 10000., x[2] * cd - x[3] * sd, x[3] * cd + x[2] * sd, x[4] * cd2 - x[5] * sd2, x[5] * cd2 + x[4] * sd2])
    for _ in range(gap):
        P = T @ P @ T.T + Q
    return co, P, vt


def filtered(p, q, tail, nxt, used):
    """a step of a model by its oldest waiting observation (used, or left out as noise): p -> q"""
    m, n = p.nrt_model[0], q.nrt_model[0]
    d, v = tail[0]
    worst, what = 0, None
    for b in range(6):
        co, P, vt = state_space(m["nrt_coefs"][b].astype(float), m["covariance"][b].astype(float).reshape(6, 6), float(m["H"][b]), d,
                                float(v[b]) if used else None, nxt - d)
        size = max(100., abs(vt))
        for x in (d, d + 90, d + 180, d + 270, d + 360):
            e = abs(predict(co[None], x)[0] - predict(n["nrt_coefs"].astype(float)[b:b + 1], x)[0]) / size
            if e > worst:
                worst, what = e, "the prediction of band %d for day %d is %.1f, by the state-space model %.1f" % (b, x, predict(n["nrt_coefs"].astype(float)[b:b + 1], x)[0], predict(co[None], x)[0])
        N = n["covariance"][b].astype(float).reshape(6, 6)
        e = np.abs(np.triu(N - P)).max() / np.abs(P).max()
        if e > worst:
            worst, what = e, "the uncertainty of band %d differs from that of the state-space model by %.3g of %.3g" % (b, np.abs(np.triu(N - P)).max(), np.abs(P).max())
        g, h = float(n["rmse_sum"][b]) - float(m["rmse_sum"][b]), min(vt * vt, 2.0 ** 32 - 1 - float(m["rmse_sum"][b]))
        count("squared_errors_at_their_limit", int(g < vt * vt - 1000 and h < vt * vt - 1000))
        e = max(0, abs(g - h) - 2 - abs(vt)) / max(100., h)
        if e > worst:
            worst, what = e, "the squared error of band %d grows by %.0f, the observation and the model show %.0f" % (b, g, h)
        if n["H"][b] != m["H"][b]:
            worst, what = 1, "the model's noise changes"
    count("model_steps_recomputed" if int(p.nrt_mode) != 3 else "snow_model_steps_recomputed")
    return [("model", "after the observation of day %d was %s: %s" % (d, "taken into the model" if used else "set aside as noise", what))] if worst > 0.01 else []


def step_rule(a, j, p, q, L, tcg):
    """an update with the single, beyond doubt usable, new observation j: p -> q"""
    if int(p.nrt_mode) == 3 and int(q.nrt_mode) == 3 and beyond_doubt(a, j, True):
        tail = tail_of(p.nrt_model[0], L)
        if len(tail) == 8 and int(a[0][j]) > tail[-1][0] and int(q.nrt_model[0]["num_obs"]) == int(p.nrt_model[0]["num_obs"]) + 1:
            return filtered(p, q, tail, tail[1][0], True)
        return []
    if int(p.nrt_mode) % 10 != 1 or not beyond_doubt(a, j, False):
        return []
    d, tail = decision(p, L, tcg)
    if d is None or int(a[0][j]) <= tail[-1][0]:
        return []
    count("decisions_" + d)
    n = len(q.rec_cg) - len(p.rec_cg)
    m = p.nrt_model[0]
    if d == "break":
        if n != 1:
            return [("missed", "the %d latest observations from day %d on all break with the model, but %d segments are closed" % (len(tail), tail[0][0], n))]
        r = q.rec_cg[-1]
        dif = np.median([np.asarray(v, float) - predict(m["nrt_coefs"].astype(float), x) for x, v in tail], axis=0)
        if int(r["t_break"]) != tail[0][0] or int(r["num_obs"]) != int(m["num_obs"]) or np.abs(r["magnitude"] - dif).max() > 2 + 0.005 * np.abs(dif).max():
            return [("wrong", "closed segment: break day %d, %d observations, magnitudes %s; its model and the breaking observations show day %d, %d, %s" % (
                r["t_break"], r["num_obs"], np.rint(r["magnitude"]).tolist(), tail[0][0], m["num_obs"], np.rint(dif).tolist()))]
        e = np.sqrt(m["rmse_sum"].astype(float) / (int(m["num_obs"]) - 6)) if int(m["num_obs"]) > 6 else None
        if bits(np.array(r["coefs"])) != bits(np.array(m["nrt_coefs"])) or e is not None and np.abs(r["rmse"] - e).max() > 0.01 + 0.001 * e.max():
            return [("wrong", "the closed segment's coefficients or errors are not those of its model")]
        return []
    if n:
        return [("wrong", "a break is reported on day %d, where the %d latest observations do not all break with the model" % (int(q.rec_cg[-1]["t_break"]), len(tail)))]
    if int(q.nrt_mode) % 10 == 1 and int(q.nrt_model[0]["num_obs"]) - int(m["num_obs"]) != (d == "regular"):
        return [("wrong", "the observation of day %d is %s, yet the model's number of observations goes from %d to %d" % (
            tail[0][0], "noise" if d == "noise" else "explained by the model", m["num_obs"], q.nrt_model[0]["num_obs"]))]
    if int(q.nrt_mode) % 10 == 1 and len(tail_of(q.nrt_model[0], L)) == len(tail):
        return filtered(p, q, tail, tail[1][0] if len(tail) > 1 else int(a[0][j]), d == "regular")
    return []


def one_by_one(a, k, e, p, q, L, kw):
    """a monitored model comes to the same whether a batch arrives at once (q) or one observation at a time"""
    m0 = int(p.nrt_mode)
    if m0 not in (1, 3):
        return []
    z, bad, near = p, [], False
    for j in range(k, e):
        if m0 == 1 and int(z.nrt_mode) == 1 and decision(z, L, kw["t_cg"])[0] is None:
            near = True
        y = nv.COLDS.sccd_update(z, *[x[j:j + 1].copy() for x in a], **kw)
        bad += step_rule(a, j, z, y, L, kw["t_cg"])
        z = y
        if len(z.rec_cg) > len(p.rec_cg):
            break
    if near or bad:
        return bad
    count("batches_cut_differently")
    n, o = len(p.rec_cg), "delivered at once and one at a time, %d observations " % (e - k)
    if (len(z.rec_cg) > n) != (len(q.rec_cg) > n):
        return [("cut", o + "do not both show a break")]
    if len(z.rec_cg) > n:
        if any(int(z.rec_cg[n][f]) != int(q.rec_cg[n][f]) for f in ("t_start", "t_break", "num_obs")):
            return [("cut", o + "show different breaks")]
        return []
    if int(q.nrt_mode) != m0 or int(z.nrt_mode) != m0:
        return [("cut", o + "leave modes %d and %d" % (q.nrt_mode, z.nrt_mode))] if q.nrt_mode != z.nrt_mode else []
    x, y = q.nrt_model[0], z.nrt_model[0]
    for f in ("t_start_since1982", "num_obs", "obs", "obs_date_since1982"):
        if not np.array_equal(x[f], y[f]):
            return [("cut", o + "leave different %s in the model" % f)]
    for f in ("nrt_coefs", "rmse_sum", "H", "covariance"):
        u, v = x[f].astype(float), y[f].astype(float)
        if f == "covariance" and m0 == 3:
            continue
        if np.abs(u - v).max() > 0.01 * max(1.0, np.abs(u).max()):
            return [("cut", o + "leave different %s in the model" % f)]
    return []


def anomaly(p, L, gate=9.236):
    """the state of a monitored model reports the anomaly its latest observations show against that model"""
    if int(p.nrt_mode) % 10 != 1 or not len(p.nrt_model):
        return []
    m = p.nrt_model[0]
    z = residuals(m, p.min_rmse, tail_of(m, L)[::-1])
    if z is None:
        return []
    N = [float((v * v).sum()) for v in z]
    n = 0
    while n < len(N) and N[n] > gate:
        n += 1
    if any(abs(x - gate) < 0.02 * gate for x in N[:n + 1]):
        return []
    count("anomalies_recomputed")
    st = (int(m["conse_last"]), int(m["norm_cm"]), int(m["cm_angle"]))
    if st[0] != n:
        return [("anomaly", "the state counts %d anomalous latest observations, its model and observations show %d" % (st[0], n))]
    cm, ang = -9999, -9999
    if n:
        cm = min(32767, min(N[:n]) * 100)
        ang = 0 if n == 1 else 100 * np.mean([np.degrees(np.arccos(np.clip(z[i].dot(z[i + 1]) / np.sqrt(N[i] * N[i + 1]), -1, 1))) for i in range(n - 1)])
    if abs(cm - st[1]) > 0.03 * abs(st[1]) + 5:
        return [("anomaly", "the state reports change magnitude %d, its model and observations show %.0f" % (st[1], cm))]
    if abs(ang - st[2]) > 60:
        return [("anomaly", "the state reports change angle %d, its model and observations show %.0f" % (st[2], ang))]
    return []


def trusted(p, q, L, tcg):
    """a monitored model whose predictability is in doubt (after a disturbance was identified) is trusted again once more
    than half of its latest observations are within the predictability threshold: p -> q by an update without break"""
    if int(p.nrt_mode) != 11 or int(q.nrt_mode) % 10 != 1 or len(q.rec_cg) > len(p.rec_cg):
        return []
    tail = tail_of(q.nrt_model[0], L)
    if tail == tail_of(p.nrt_model[0], L):
        return []
    z = residuals(q.nrt_model[0], q.min_rmse, tail)
    if z is None or len(tail) < 2:
        return []
    N = [float((v * v).sum()) for v in z]
    if any(abs(x - tcg) < 0.02 * tcg for x in N):
        return []
    n = sum(x < tcg for x in N)
    count("predictability_regained" if 2 * n > len(N) else "predictability_in_doubt")
    want = 1 if 2 * n > len(N) else 11
    if int(q.nrt_mode) != want:
        return [("trust", "%d of the %d latest observations are as predicted, yet the state goes from mode 11 to %d" % (n, len(N), q.nrt_mode))]
    return []


def limits(op):
    t = op.get("thresholds", [1508.6, -200, 4500])
    return dict(dist_conse=op["identify"], t_cg_scale100=t[0], t_cg_singleband_scale1000=t[1], t_angle_scale100=t[2])


def expected(p, lim, L):
    """must identification report a disturbance? True, False or None (too close to a threshold)"""
    mode = int(p.nrt_mode)
    if mode in (3, 4) or mode // 10 == 1 or not len(p.nrt_model):
        return False
    m = p.nrt_model[0]
    n = int(m["conse_last"])
    if n < lim["dist_conse"] or not m["norm_cm"] > lim["t_cg_scale100"] or not m["cm_angle"] < lim["t_angle_scale100"]:
        return False
    co = m["nrt_coefs"].astype(float)
    dif = np.median([np.asarray(v, float) - predict(co, d) for d, v in tail_of(m, L)[-n:]], axis=0)
    t = lim["t_cg_singleband_scale1000"]
    if any(abs(dif[b] - x) < 4 for b, x in ((2, -t), (3, t), (4, -t))):
        return None
    return not (dif[2] < -t and dif[3] > t and dif[4] < -t)


def identified(p, day, lim, L):
    """the day that identification reports is the first of the model's latest anomalous observations"""
    want, dist_conse = expected(p, lim, L), lim["dist_conse"]
    if want is not None and want != bool(day):
        return [("identify", "a disturbance is %s by the model and its %d latest anomalous observations, identification reports %s" % (
            "shown" if want else "not shown", int(p.nrt_model[0]["conse_last"]) if len(p.nrt_model) else 0, int(day)))]
    if not day:
        return []
    if not len(p.nrt_model):
        return [("identify", "disturbance day %d reported without a model" % day)]
    m = p.nrt_model[0]
    n, ds = int(m["conse_last"]), [int(x) + L for x in m["obs_date_since1982"] if x]
    if n < dist_conse or n > len(ds) or ds[len(ds) - n] != int(day):
        return [("identify", "disturbance day %d is not the first of the model's %d latest anomalous observations %s" % (day, n, ds))]
    return []


def detect_kw(kw):
    return {k: v for k, v in kw.items() if k != "predictability_tcg"}


def reference(op):
    """-> list of (state or None, error) after the initial call and after every batch, plus invariant violations"""
    a = nv.op_args(op)
    n = len(a[0])
    m, cuts = nv.cut_points(op, n, a[0])
    kw = nv.call_kw(op)
    from pycold.app import defaults
    L = defaults["COMMON"]["JULIAN_LANDSAT4_LAUNCH"]
    seen, out, bad = {}, [], []
    COUNT.clear()

    def deliver(lo, hi):
        for k in range(lo, hi):
            seen.setdefault(int(a[0][k]), set()).add(tuple(int(a[1 + b][k]) for b in range(6)))
    deliver(0, m)
    try:
        p = nv.COLDS.sccd_detect(*[x[:m].copy() for x in a], **detect_kw(kw))
    except Exception as e:
        return [("err", type(e).__name__)], bad, COUNT
    out.append(("ok", norm(p)))
    bad += checks(seen, None, p, L, "") + anomaly(p, L, op.get("gate", 9.236))
    if int(p.nrt_mode) != 0:
        bad += newest(a, 0, m, p, L, set(int(x) for x in a[0][:m - 1]))
    k = m
    for e in cuts:
        earlier = set(seen)
        deliver(k, e)
        before = bits(p)
        try:
            q = nv.COLDS.sccd_update(p, *[x[k:e].copy() for x in a], **kw)
        except Exception as x:
            out.append(("err", type(x).__name__, str(x)[:80]) + (("full",) if len(p.rec_cg) >= 38 else ()))
            break
        if bits(p) != before:
            bad.append(("input", "an update changes the state it starts from"))
        bad += [(c, "%s (batch %d of %d)" % (t, len(out), len(cuts))) for c, t in checks(seen, p, q, L, "") + newest(a, k, e, q, L, earlier) + follow(a, k, e, p, q, L, op["conse"]) + anomaly(q, L, op.get("gate", 9.236))
                + trusted(p, q, L, kw.get("predictability_tcg", 9.236))]
        if e - k == 1:
            bad += step_rule(a, k, p, q, L, kw["t_cg"])
        elif e - k <= 12:
            try:
                bad += one_by_one(a, k, e, p, q, L, kw)
            except RuntimeError:
                if len(p.rec_cg) < 36:
                    bad.append(("refused", "a batch accepted as a whole is refused one observation at a time"))
        if op.get("identify"):
            b2 = bits(q)
            try:
                p2, day = nv.COLDS.sccd_identify(q, **limits(op))
            except Exception as x:
                out.append(("err", type(x).__name__, "identify " + str(x)[:80]))
                break
            if bits(q) != b2:
                bad.append(("input", "identifying disturbances changes the state"))
            count("identified" if day else "not_identified")
            bad += identified(q, day, limits(op), L)
            if norm(p2._replace(nrt_mode=q.nrt_mode)) != norm(q) or int(p2.nrt_mode) != int(q.nrt_mode) + (10 if day and int(q.nrt_mode) == 1 else 0):
                bad.append(("identify", "identification turns mode %d into %d%s" % (q.nrt_mode, p2.nrt_mode, "" if day else " without reporting a disturbance")))
            if day and int(day) not in seen:
                bad.append(("invent", "disturbance reported for day %d without observation" % int(day)))
            q = p2
        p = q
        out.append(("ok", norm(p)))
        k = e
    return out, bad, COUNT


def disturbed(op, faults, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        return disturbed_(op, faults, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def disturbed_(op, faults, d):
    """the same history with restarts, lost updates, failing memory ...; -> list as in reference()"""
    a = nv.op_args(op)
    n = len(a[0])
    m, cuts = nv.cut_points(op, n, a[0])
    kw = nv.call_kw(op)
    out, bad = [], []
    try:
        p = nv.COLDS.sccd_detect(*[x[:m].copy() for x in a], **detect_kw(kw))
    except Exception as e:
        return [("err", type(e).__name__)], bad
    out.append(("ok", norm(p)))
    k = m
    for i, e in enumerate(cuts):
        batch = lambda: [x[k:e].copy() for x in a]
        for (b, j), f in sorted(faults.items()):
            if b != i:
                continue
            if f[0] == "restart":
                try:
                    o, p = p, store(p, f[1], d)
                    for x in ("rec_cg", "nrt_model", "nrt_queue", "min_rmse"):
                        if len(getattr(o, x)) and bits(np.asarray(getattr(o, x))) != bits(getattr(p, x)):
                            bad.append(("store", "state stored (%s) and reloaded has another %s" % (f[1], x)))
                except Exception as x:
                    bad.append(("store", "state cannot be stored (%s) and reloaded: %s: %s" % (f[1], type(x).__name__, str(x)[:100])))
            elif f[0] == "lost":            # computed, but the process dies before the result is stored
                try:
                    nv.COLDS.sccd_update(p, *batch(), **kw)
                except Exception:
                    pass
            elif f[0] == "other":           # another batch is tried first and its result discarded
                lo = min(n - 1, k + f[1])
                hi = min(n, lo + 1 + f[2])
                try:
                    nv.COLDS.sccd_update(p, *[x[lo:hi].copy() for x in a], **kw)
                except Exception:
                    pass
            elif f[0] == "memory":          # a memory request fails; the batch is delivered again after the error
                nv.LIB.simalloc_begin(f[1], f[2], -1, f[1])
                try:
                    q = nv.COLDS.sccd_update(p, *batch(), **kw)
                except Exception:
                    pass
                nv.LIB.simalloc_end()
            elif f[0] == "heap":            # the next process starts with other memory contents
                nv.LIB.simalloc_begin(0, 0, f[1], f[2])
                nv.SEAM.byte = f[1] & 255
            elif f[0] == "clouds":          # a batch without any usable observation changes nothing
                z = batch()
                z[8][:] = f[1]
                if f[1] == 255:
                    for x in z[1:8]:
                        x[:] = -9999
                try:
                    q = nv.COLDS.sccd_update(p, *z, **kw)
                except Exception as x:
                    bad.append(("refused", "an update with %s only is refused: %s: %s" % ("clouds" if f[1] == 4 else "fill values", type(x).__name__, str(x)[:80])))
                    continue
                if norm(q) != norm(p):
                    bad.append(("altered", "an update with %s only changes the state" % ("clouds" if f[1] == 4 else "fill values")))
                p = q
            elif f[0] == "identify":
                try:
                    nv.COLDS.sccd_identify(p, transform_mode=True)
                except Exception:
                    pass
        try:
            q = nv.COLDS.sccd_update(p, *batch(), **kw)
        except Exception as x:
            out.append(("err", type(x).__name__, str(x)[:80]) + (("full",) if len(p.rec_cg) >= 38 else ()))
            break
        nv.LIB.simalloc_end()
        if op.get("identify"):
            try:
                q = nv.COLDS.sccd_identify(q, **limits(op))[0]
            except Exception as x:
                out.append(("err", type(x).__name__, "identify " + str(x)[:80]))
                break
        p = q
        out.append(("ok", norm(p)))
        k = e
    return out, bad


def gen_faults(scn, nb):
    r = random.Random("nrt-%s" % scn["seed"])
    out = {}
    rate = scn["faults"].get("rate", 0)
    if not rate:
        return out
    for i in range(nb):
        j = 0
        while r.random() < rate and j < 3:
            k = r.choice(["restart", "restart", "restart", "lost", "lost", "other", "memory", "heap", "identify", "clouds"])
            out[(i, j)] = {"restart": lambda: (k, r.choice(FMTS)), "lost": lambda: (k,), "other": lambda: (k, r.randrange(0, 20), r.randrange(0, 9)),
                           "memory": lambda: (k, r.randrange(1, 300), r.choice([0, 1, 2])), "heap": lambda: (k, r.choice([255, -2, 127]), r.randrange(1 << 20)),
                           "identify": lambda: (k,), "clouds": lambda: (k, r.choice([4, 4, 2, 255]))}[k]()
            j += 1
    return out


def run(scn, scratch, plan=None):
    out = Res()
    op = scn["op"]
    a = nv.op_args(op)
    n = len(a[0])
    m, cuts = nv.cut_points(op, n, a[0])
    faults = {tuple(k): tuple(v) for k, v in plan.faults.items()} if plan is not None else gen_faults(scn, len(cuts))
    out.plan.faults = dict(faults)
    g = isolated([lambda: reference(op), lambda: disturbed(op, faults, scratch)])
    st = out.stats
    who = nv.describe(op)
    if g[0][0] != "ret":
        out.add("crash" if g[0][0] != "hang" else "hang", "%s %s" % (who, "never returns" if g[0][0] == "hang" else "kills the process"))
        out.digest = digest(out.violations)
        out.sched = out.digest[:16]
        return out
    ref, bad, counts = g[0][1]
    st.update(counts)
    for c, t in bad:
        out.add(c, "%s: %s" % (who, t))
    st["updates"] = len(ref) - 1
    st["batches"] = len(cuts)
    for r in ref:
        if r[0] == "ok":
            st["mode_%d" % r[1][3]] = st.get("mode_%d" % r[1][3], 0) + 1
    if ref[-1][0] == "err":
        st["histories_ending_in_error"] = 1
        if len(ref) > 1 and ref[-1][-1] != "full":
            out.add("refused", "%s: update with valid observations is refused: %s" % (who, ref[-1][2]))
    st["closed_segments"] = len(eval(ref[-1][1][1])) if ref[-1][0] == "ok" else 0
    for f in faults.values():
        st["fault_" + f[0]] = st.get("fault_" + f[0], 0) + 1
    if g[1][0] != "ret":
        out.add("crash" if g[1][0] != "hang" else "hang", "%s %s after restarts or repeated updates" % (who, "never returns" if g[1][0] == "hang" else "kills the process"))
    else:
        dis, bad = g[1][1]
        for c, t in bad:
            out.add(c, "%s: %s" % (who, t))
        if dis != ref:
            i = next((i for i, (x, y) in enumerate(zip(ref, dis)) if x != y), min(len(ref), len(dis)))
            out.add("diverge", "%s: after update %d the state differs from the undisturbed history" % (who, i))
    out.digest = digest(sorted((str(k), v) for k, v in faults.items()), sorted(out.violations), [r[0] for r in ref])
    out.sched = digest(op, sorted((str(k), v) for k, v in faults.items()))[:16]
    return out
