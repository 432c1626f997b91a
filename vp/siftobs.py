"""Observation of complete EMD runs for C02 and C03: measurements along the sifting of each returned component.

The trajectory is rebuilt from the returned components with the public building blocks (extrema, envelopes, which C04-C07
cover); nothing here decides when sifting should stop - that is EmdRules.tla - except `hint`, which only limits how many
rounds are written down (a record that is too short is reported by the specification, not accepted)."""
import numpy as np
from vp.sig import rand_signal, rand_time

REL = 1e-6


def cmp3(x, thr, scale=None):
    """-1: x < thr, 1: x >= thr, 0: too close to call; nan compares as not below"""
    if np.isnan(x):
        return 1
    tol = REL * max(abs(thr), scale or 0)
    if abs(x - thr) <= tol:
        return 0
    return -1 if x < thr else 1


def crit(e, new, old, eMax, eMin):
    with np.errstate(all="ignore"):
        d = new - old
        d2 = np.sum(d * d)
        amp = float(np.max(np.abs(old)))
        return {"hi": cmp3(float(np.min(eMax[1])), 0.0, amp * 1e-3), "lo": cmp3(float(-np.max(eMin[1])), 0.0, amp * 1e-3),
                "en": cmp3(float(np.sum(new ** 2)), 1e-10),
                "sv": cmp3(float(d2 / (np.max(old) - np.min(old))), e.svar_thr),
                "sd": cmp3(float(np.sum((d / new) ** 2)), e.std_thr),
                "er": cmp3(float(d2 / np.sum(old * old)), e.energy_ratio_thr)}


def ends(e, rest, amp):
    return {"rg": cmp3(float(np.max(rest) - np.min(rest)), e.range_thr, amp * 1e-8), "pw": cmp3(float(np.sum(np.abs(rest))), e.total_power_thr, amp * 1e-8)}


def counts(e, T, h):
    r = e.find_extrema(T, h)
    return len(r[0]) + len(r[2]), len(r[4])


def hint(e, k, nh, c, ez):
    near = abs(ez[0] - ez[1]) < 2
    if e.FIXE:
        return k >= e.FIXE, nh
    if e.FIXE_H:
        nh = (nh + 1 if near else 0) if k > 1 else nh
        return k > 1 and nh >= e.FIXE_H, nh
    ok = c["hi"] == 1 and c["lo"] == 1 and c["en"] == 1 and -1 in (c["sv"], c["sd"], c["er"])
    return ok and near, nh


class Fragile(Exception):
    """extrema or zero crossings depend on rounding"""


def look(e, T, h):
    x = e.find_extrema(T, h)
    c = len(x[0]) + len(x[2]), len(x[4])
    return c, (e.prepare_points(T, h, *x[:4]) if c[0] > 2 else None)


def firm(e, T, h, scale, rs):
    """counts, if neither they nor the knots of the envelopes change when h is disturbed at the level of rounding"""
    c, k = look(e, T, h)
    for _ in range(3):
        d, m = look(e, T, h + 1e-13 * scale * rs.uniform(-1, 1, len(h)))
        if c != d:
            raise Fragile
        if k is not None and any(x.shape != y.shape or np.max(np.abs(x[0] - y[0])) > 1e-6 * (T[-1] - T[0]) for x, y in zip(k, m)):
            raise Fragile
    return c


def sift(e, T, r, row, scale, rest0, amp, exact=False):
    """row None: the candidate after the last component; exact: r is the signal itself, not the result of a calculation"""
    h = r.copy()
    rs = np.random.RandomState(len(h))
    cur, _ = counts(e, T, h) if exact else firm(e, T, h, scale, rs)
    out = {"cur0": cur, "rounds": []}
    nh, extra, k = 0, None, 0
    while True:
        k += 1
        if k >= e.MAX_ITERATION or cur <= 2 or (extra is not None and extra <= 0) or k > 1100:
            return out
        mx, mn, eM, em = e.extract_max_min_spline(T, h)
        old, h = h, h - 0.5 * (mx + mn)
        ez = firm(e, T, h, scale, rs)
        c = crit(e, h, old, eM, em)
        hit = row is not None and bool(np.max(np.abs(h - row)) <= 1e-7 * scale)
        out["rounds"].append({"e": ez[0], "z": ez[1], "c": c, "d": ends(e, rest0 - h, amp), "hit": hit})
        cur = ez[0]
        stop, nh = hint(e, k, nh, c, ez)
        if stop and extra is None:
            extra = 1
        elif extra is not None:
            extra -= 1


def build(cfg):
    from PyEMD import EMD
    c = dict(cfg)
    return EMD(**c)


# the documented defaults
DEFAULT = {"spline_kind": "cubic", "nbsym": 2, "extrema_detection": "simple", "FIXE": 0, "FIXE_H": 0, "MAX_ITERATION": 1000, "energy_ratio_thr": 0.2, "std_thr": 0.2,
           "svar_thr": 0.001, "total_power_thr": 0.005, "range_thr": 0.001}


def asked(e, cfg):
    """measure with what was asked for, not with what the object says it was asked for"""
    for k, v in {**DEFAULT, **cfg}.items():
        setattr(e, k, v)
    return e


def run_emd(case, build=build):
    """-> record or None when the run is numerically fragile (its outcome changes under a change of scale by 1e-12)"""
    S = np.array(case["s"], dtype=float)
    T = None if case.get("t") is None else np.array(case["t"], dtype=float)
    mi = case["max_imf"]
    res = []
    for f in (1.0, 1 + 1e-12, 1 - 3e-12):
        e = build(case["cfg"])
        out = e.emd(S * f, T, mi)
        imfs, rest = e.get_imfs_and_residue()
        res.append((np.array(out), np.array(imfs), np.array(rest)))
    out, imfs, rest = res[0]
    scale = max(float(np.max(np.abs(out))) if out.size else 0, float(np.max(np.abs(S))), 1e-300)
    for o in res[1:]:
        if o[1].shape != imfs.shape or o[0].shape != out.shape or (imfs.size and np.max(np.abs(o[1] - imfs)) > 1e-9 * scale):
            return None
    e = asked(build(case["cfg"]), case["cfg"])
    tt = np.arange(len(S), dtype=float) if T is None or e.extrema_detection == "simple" else (T - T[0]) / np.min(np.diff(T))
    rule, par = ("fixe", e.FIXE) if e.FIXE else ("fixeh", e.FIXE_H) if e.FIXE_H else ("default", 0)
    rec = {"kind": "run", "rule": rule, "par": par, "maxiter": e.MAX_ITERATION, "maximf": mi, "modes": [], "total": int(out.shape[0]),
           "rest": bool(out.shape[0] > imfs.shape[0])}
    amp = scale
    try:
        for k in range(len(imfs)):
            r = S - np.sum(imfs[:k], axis=0)
            m = sift(e, tt, r, imfs[k], scale, r, amp, k == 0)
            m["d"] = ends(e, S - np.sum(imfs[:k + 1], axis=0), amp)
            rec["modes"].append(m)
        r = S - np.sum(imfs, axis=0)
        rec["cand"] = sift(e, tt, r, None, scale, r, amp, len(imfs) == 0)
    except Fragile:
        return None
    return rec


def rand_case(rng):
    n = rng.choice([6, 10, 16, 24, 40, 64, 100]) if rng.random() < 0.97 else rng.choice([250, 500, 1000])
    cfg = {"spline_kind": rng.choice(["cubic", "cubic", "cubic", "akima", "pchip", "cubic_hermite", "slinear", "quadratic", "linear"]), "nbsym": rng.choice([1, 2, 2, 3])}
    x = rng.random()
    if x < 0.25:
        cfg["FIXE"] = rng.choice([1, 2, 3, 5, 10])
    elif x < 0.5:
        cfg["FIXE_H"] = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.25:
        cfg["MAX_ITERATION"] = rng.choice([2, 3, 4, 8, 20])
    for key, vals in (("energy_ratio_thr", [0.2, 0.02, 0.5, 0.0]), ("std_thr", [0.2, 0.01, 1.0, 0.0]), ("svar_thr", [0.001, 0.05, 1e-5, 0.0]),
                      ("total_power_thr", [0.005, 1.0, 5.0]), ("range_thr", [0.001, 0.3, 1.0])):
        if rng.random() < 0.25:
            cfg[key] = rng.choice(vals)
    if "MAX_ITERATION" not in cfg and (rng.random() < 0.9 or 0.0 in cfg.values()):
        cfg["MAX_ITERATION"] = rng.choice([60, 150])
    if n >= 250:
        cfg["MAX_ITERATION"] = min(cfg.get("MAX_ITERATION", 60), 60)
    kind = rng.choice(["gauss", "sines", "walk", "trend", "spiky", "am", "ints", "plateau"])
    t = None
    if rng.random() < 0.2:
        cfg["extrema_detection"] = "parabol"
        kind = rng.choice(["gauss", "sines", "walk", "trend", "am"])
        t = rand_time(rng, n)
    elif rng.random() < 0.2:
        t = rand_time(rng, n)
    s = rand_signal(rng, n, kind)
    a = rng.choice([1, 1, 1, 1, 0.01, 0.3, 20])
    o = rng.choice([0, 0, 0, 3, -1])
    s = [v * a + o for v in s]
    return {"k": "run", "s": s, "t": t, "cfg": cfg, "max_imf": rng.choice([-1, -1, -1, 1, 2, 3])}
