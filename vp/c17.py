"""C17: the MATLAB compatible variant."""
import itertools
import numpy as np
from vp.sig import rand_signal, rand_time
from vp.core import q
from vp import c04, c07, siftobs
from vp.c01 import limbs
from vp.siftobs import cmp3

PROP, TRACE = "C17", "MatlabTrace"
MODELS = [("Matlab", "MatlabMC_%s.cfg" % r, ("quick",)) for r in ("fixe", "fixeh", "default")] + \
         [("Matlab", "MatlabMC_%s_deep.cfg" % r, ("thorough",)) for r in ("fixe", "fixeh", "default")]
ASSUMPTIONS = ["floating point signals, strictly increasing time axes, limits of two or more",
               "sifting rules: runs whose outcome changes when the signal is scaled by 1 +- 1e-12 are left out; comparisons within 1e-6 of a threshold may go either way"]


def gen(tier, rng):
    big = tier == "thorough"
    for n in range(3, 8 if big else 7):
        for s in itertools.product((-1, 0, 1), repeat=n):
            yield {"k": "ext", "s": list(s), "v": (sum((i + 2) * x for i, x in enumerate(s)) + n) % 8}
    for _ in range(8000 if big else 1200):
        yield {"k": "ext", "s": rand_signal(rng, rng.choice([5, 9, 16, 40])), "v": rng.randrange(8)}
    for _ in range(10000 if big else 1500):
        n = rng.choice([6, 8, 11, 16])
        yield {"k": "mir", "s": [rng.randint(-6, 6) for _ in range(n)], "nb": rng.choice([1, 2, 2, 3, 5])}
    for _ in range(9000 if big else 2000):
        n = rng.choice([6, 10, 16, 24, 40, 64])
        cfg = {"splineKind": rng.choice(["cubic", "cubic", "cubic", "akima", "linear", "slinear", "quadratic"]), "nbsym": rng.choice([1, 2, 2, 3])}
        x = rng.random()
        if x < 0.3:
            cfg["FIXE"] = rng.choice([1, 2, 3, 5, 10])
        elif x < 0.6:
            cfg["FIXE_H"] = rng.choice([1, 2, 3, 5])
        cfg["maxIteration"] = rng.choice([1, 2, 3, 5, 20, 60, 100])
        for key, vals in (("stop1", [0.05, 0.2, 0.01]), ("stop2", [0.5, 1.0, 0.1]), ("stop3", [0.05, 0.3, 0.0])):
            if rng.random() < 0.3:
                cfg[key] = rng.choice(vals)
        a = rng.choice([1, 1, 1, 0.01, 20, 1e6])
        s = [v * a for v in rand_signal(rng, n)]
        if rng.random() < 0.2:
            s = [v + a * (3 + 0.02 * i * i) for i, v in enumerate(s)]
        yield {"k": "run", "s": s, "t": rand_time(rng, n) if rng.random() < 0.5 else None, "cfg": cfg, "limit": rng.choice([None, None, None, -1, 2, 3, 4])}
    for kd in ("linear", "slinear", "quadratic", "cubic", "akima"):
        for _ in range(1500 if big else 250):
            n = rng.choice([3, 4, 4, 5, 6, 8, 12])
            yield {"k": "spline", "sk": kd, "h": [rng.randint(1, 4) for _ in range(n - 1)], "y": [rng.randint(-8, 8) for _ in range(n)], "o": rng.choice([0, 0, -7, 20])}
    for n in (2, 3, 4, 5):
        for s in itertools.product((-1, 0, 2), repeat=n):
            yield {"k": "run", "s": [float(x) for x in s], "t": None, "cfg": {"maxIteration": 20}, "limit": None}


DEFAULT = {"splineKind": "cubic", "nbsym": 2, "maxIteration": 500, "FIXE": 0, "FIXE_H": 0, "stop1": 0.05, "stop2": 0.5, "stop3": 0.05}


def build(cfg):
    from PyEMD.EMD_matlab import EMD
    m = EMD()
    for k, v in cfg.items():
        setattr(m, k, v)
    return m


def decompose(case, f):
    m = build(case["cfg"])
    S = np.array(case["s"], dtype=float) * f
    T = None if case["t"] is None else np.array(case["t"], dtype=float)
    S0, T0 = S.copy(), None if T is None else T.copy()
    IMF, EXT, ITER, K = m.emd(m, S, T, case["limit"])
    same = bool(np.array_equal(S, S0) and (T is None or np.array_equal(T, T0)))
    return IMF, EXT, ITER, K, same


def frac(sx, m):
    """share of samples above stop1 against stop3: -1 tolerated, 1 not, 0 too close to call"""
    tol = 1e-6 * max(abs(m.stop1), 1e-9)
    bad = np.isnan(sx)
    if bad.any():
        pass                                      # nan compares as not above
    lo, hi = np.mean(sx > m.stop1 + tol), np.mean(sx > m.stop1 - tol)
    if lo > m.stop3:
        return 1
    return -1 if hi <= m.stop3 else 0


class View:
    """what siftobs.firm looks at"""

    def __init__(self, m):
        self.m = m

    def find_extrema(self, T, h):
        return self.m.findExtrema(T, h)

    def prepare_points(self, T, h, *x):
        return [np.array(k) for k in self.m.preparePoints(h, T, *x)]


def measure(m, T, h):
    """-> entry of the trajectory and the next candidate"""
    r = m.findExtrema(T, h)
    e, z = len(r[0]) + len(r[2]), len(r[4])
    if e <= 2:
        return {"e": e, "z": z, "c": {"fr": 1, "bg": 1}}, None
    up, lo, _, _ = m.extractMaxMinSpline(T, h)
    mean = 0.5 * (up + lo)
    with np.errstate(all="ignore"):
        sx = np.abs(mean) / (np.abs(up - lo) / 2.0)
    w = sx[~np.isnan(sx)]
    bg = cmp3(float(np.max(w)), m.stop2) if w.size else -1
    # mean and amplitude both of rounding size: the ratio is arbitrary there
    if np.any(np.abs(up - lo) / 2 < 1e-9 * np.max(np.abs(h))):
        bg, fr = 0, 0
    else:
        fr = frac(sx, m)
    return {"e": e, "z": z, "c": {"fr": fr, "bg": bg}}, h - mean


def observe(case):
    out = [decompose(case, f) for f in (1.0, 1 + 1e-12, 1 - 3e-12)]
    IMF, EXT, ITER, K, same = out[0]
    S = np.array(case["s"], dtype=float)
    n = len(S)
    want = list(range(K)) if isinstance(K, (int, np.integer)) else None
    keys = bool(want is not None and K >= 1 and all(sorted(d.keys()) == want for d in (IMF, EXT, ITER)) and all(np.shape(IMF[k]) == (n,) for k in want))
    rec = {"kind": "ledger", "keys": keys, "finite": bool(all(np.all(np.isfinite(v)) for v in IMF.values())), "same": same}
    if not (keys and rec["finite"]):
        return [rec]
    rows = [np.array(IMF[k], dtype=float) for k in want]
    M = max([float(np.max(np.abs(x))) for x in [S] + rows] + [1e-300])
    rec.update(s=limbs(S, M), rows=[limbs(x, M) for x in rows], slack=int(min(2 ** 27, 1.1e-10 / M * 2 ** 50 + 1)))
    recs = [rec]
    for o in out[1:]:
        if o[3] != K or any(ITER[k] != o[2][k] for k in want) or any(np.max(np.abs(rows[k] - o[0][k])) > 1e-9 * M for k in want):
            return recs
    rest = ITER[K - 1] == 0
    modes = rows[:-1] if rest else rows
    m = build({**DEFAULT, **case["cfg"]})
    T = np.arange(n, dtype=float) if case["t"] is None else np.array(case["t"], dtype=float)
    rule, par = ("fixe", m.FIXE) if m.FIXE else ("fixeh", m.FIXE_H) if m.FIXE_H else ("default", 0)
    left = float(np.sum(np.abs(S - np.sum(modes, axis=0)))) if modes else float(np.sum(np.abs(S)))
    run = {"kind": "run", "rule": rule, "par": par, "cap": int(min(m.maxIteration, m.MAX_ITERATION - 1)), "limit": -1 if case["limit"] is None else case["limit"],
           "rest": bool(rest), "zero": "y" if left < 0.3e-10 else "n" if left > 3e-10 else "e", "modes": []}
    r, rs = S.copy(), np.random.RandomState(n)
    for k, row in enumerate(modes):
        h, R, it = r.copy(), [], int(ITER[k])
        while h is not None and len(R) < min(it, 1000) + 2:
            if k or R:
                try:
                    siftobs.firm(View(m), T, h, M, rs)
                except siftobs.Fragile:
                    return recs
            d, nxt = measure(m, T, h)
            d["hit"] = bool(np.max(np.abs(h - row)) <= 1e-7 * M)
            R.append(d)
            h = nxt
        run["modes"].append({"rounds": R, "iter": it, "ext": int(EXT[k])})
        r = r - row
    return recs + [run]


def run(case):
    from PyEMD.EMD_matlab import EMD
    if case["k"] == "ext":
        S, T = c04.apply(case)
        return [c04.observe(EMD().findExtrema, S, T)]
    if case["k"] == "spline":
        m = EMD()
        return c07.observe(lambda T, K: m.splinePoints(T, K, case["sk"]), case)
    if case["k"] == "mir":
        S = np.array(case["s"], dtype=float)
        n = len(S)
        T = np.arange(n, dtype=float)
        m = build({"nbsym": case["nb"]})
        mp, mv, lp, lv, _ = m.findExtrema(T, S)
        if len(mp) + len(lp) < 3:
            return []
        S0, T0 = S.copy(), T.copy()
        mx, mn = m.preparePoints(S, T, mp, mv, lp, lv)
        I = lambda x: int(x) if float(x) == round(float(x)) else -10 ** 6
        Kn = lambda ps, vs: [[I(a), I(b)] for a, b in zip(ps, vs)]
        return [{"kind": "mirror", "hi": Kn(mp, mv), "lo": Kn(lp, lv), "a": 0, "sa": I(S0[0]), "b": n - 1, "sb": I(S0[-1]), "nb": case["nb"],
                 "omax": Kn(*mx), "omin": Kn(*mn), "same": bool(np.array_equal(S, S0) and np.array_equal(T, T0))}]
    return observe(case)


def stats(recs):
    r = [x for x in recs if x["kind"] == "run"]
    return {"runs": len(r), "modes": sum(len(x["modes"]) for x in r), "rounds": sum(len(m["rounds"]) for x in r for m in x["modes"]),
            "by_rule": {k: sum(x["rule"] == k for x in r) for k in ("fixe", "fixeh", "default")}, "limited": sum(x["limit"] >= 2 for x in r)}
