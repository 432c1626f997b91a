"""C13: time axis and sample type."""
import numpy as np
from vp.core import q
from vp.sig import rand_signal, rand_time

PROP, TRACE = "C13", "TimeTrace"
MODELS = [("TimelineMC", "TimelineMC.cfg", ("quick", "thorough"))]
ASSUMPTIONS = ["single and half precision compared with double after one sifting round (longer runs amplify rounding without bound)", "half precision up to 1024 samples (knots mirrored past the end need twice the range) and past 2049",
               "time scaling with factors and offsets that are exact in binary; others after one sifting round"]
INTS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]
SPL = ["cubic", "akima", "pchip", "cubic_hermite", "slinear"]


def gen(tier, rng):
    big = tier == "thorough"
    for dt in INTS + ["e", "f", "d", None]:
        for n in [1, 2, 3, 5, 50, 126, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300] + [2047, 2048, 2049, 2050, 2051, 3000, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 70001]:
            yield {"k": "axis", "dt": dt, "n": n}
        for n in (3, 127, 128, 129, 255, 256, 257, 300, 2047, 2048, 2049, 2050, 2051):
            if dt:
                yield {"k": "passed", "dt": dt, "n": n}
    for _ in range(1500 if big else 400):
        dt = rng.choice(INTS)
        n = rng.choice([10, 30, 60, 120, 127, 128, 129, 200, 255, 256, 257])
        lo, hi = {"i1": (-120, 120), "u1": (0, 250)}.get(dt, (0, 3000) if dt[0] == "u" else (-3000, 3000))
        yield {"k": "type", "dt": dt, "s": ints(rng, n, lo, hi), "cfg": {"extrema_detection": rng.choice(["simple", "simple", "parabol"]), "spline_kind": rng.choice(SPL)}, "max_imf": rng.choice([-1, 2]),
               "who": rng.choice(["emd", "emd", "emd", "eemd", "ceemdan"])}
    for _ in range(1500 if big else 400):
        dt = rng.choice(["f", "e"])
        n = rng.choice([10, 30, 100, 256, 700, 1024] + ([2500] if rng.random() < 0.1 else []))
        m = 1000 if dt == "f" else 100
        yield {"k": "type1", "dt": dt, "s": ints(rng, n, -m, m), "cfg": {"FIXE": 1, "spline_kind": rng.choice(["cubic", "slinear", "akima", "pchip"])}}
    for _ in range(1500 if big else 400):
        n = rng.choice([3, 6, 15, 40, 80])
        yield {"k": "simple", "s": rand_signal(rng, n), "t": rand_time(rng, n, rng.choice(["shift", "scale", "uneven", "unevenint"])), "tk": rng.choice(["plain", "int", "huge", "tiny", "f4"]), "spline": rng.choice(SPL),
               "who": rng.choice(["emd", "emd", "call", "eemd", "ceemdan"]), "max_imf": rng.choice([-1, -1, 1, 2])}
    for _ in range(1500 if big else 400):
        n = rng.choice([6, 15, 40, 80])
        exact = rng.random() < 0.7
        t, x = [], 0
        for _ in range(n):
            t.append(x)
            x += rng.choice([1, 1, 2, 3]) if rng.random() < 0.7 else 1
        yield {"k": "para", "s": rand_signal(rng, n, rng.choice(["gauss", "sines", "walk", "am"])), "t": t, "sc": 2.0 ** rng.choice([-12, -6, -1, 0, 3, 8]) if exact else rng.choice([0.1, 3.0, 0.007, 100.0]),
               "off": rng.choice([0, 16, -1024, 5]) if exact else rng.choice([0.1, -7.7, 100.0]), "exact": exact, "ident": rng.random() < 0.2, "spline": rng.choice(["cubic", "slinear", "akima", "pchip"])}
    for who in ("emd", "call", "eemd", "ceemdan", "matlab"):
        for det in ("simple", "parabol"):
            for d in (-3, -1, 1, 4):
                for n in (5, 20):
                    yield {"k": "rejlen", "who": who, "det": det, "n": n, "d": d}
            for i in (1, 7, 18):
                yield {"k": "rejrep", "who": who, "det": det, "i": i}


def ints(rng, n, lo, hi):
    if rng.random() < 0.5:
        return [rng.randint(lo, hi) for _ in range(n)]
    import math
    a, f, g, m = (hi - lo) / 4.1, rng.uniform(0.2, 2.5), rng.uniform(0.02, 0.4), (hi + lo) / 2
    return [int(m + a * (math.sin(f * i) + math.sin(g * i))) for i in range(n)]


class Rec:
    def __init__(self):
        self.ts = []

    def emd(self, S, T=None, max_imf=-1):
        if T is not None:
            self.ts.append(np.array(T))
        S = np.asarray(S, dtype=float)
        return np.array([S * 0.5, S * 0.5])

    __call__ = emd


def axis(v, n, who):
    v = np.asarray(v)
    if np.ndim(v) != 1 or len(v) > 100000:
        return {"kind": "bad-axis"}
    f = [float(x) for x in v]
    if n <= 300:
        return {"kind": "axis", "n": n, "v": [q(x, 1) if x == int(x) else -999 for x in f], "who": who}
    d = np.diff(np.array(f))
    return {"kind": "long", "n": n, "len": len(f), "first": q(f[0], 1), "last": q(f[-1], 1), "mind": q(float(d.min()), 1), "maxd": q(float(d.max()), 1), "who": who}


def call(who, cfg, S, T=None, max_imf=-1):
    from PyEMD import CEEMDAN, EEMD, EMD
    if who in ("emd", "call"):
        e = EMD(**cfg)
        return e.emd(S, T, max_imf) if who == "emd" else e(S, T, max_imf)
    if who == "matlab":
        from PyEMD.EMD_matlab import EMD as M
        return M().emd(S, T)
    o = (EEMD if who == "eemd" else CEEMDAN)(trials=2, parallel=False, ext_EMD=EMD(**cfg))
    o.noise_seed(7)
    return getattr(o, who)(S, T, max_imf)


def same(a, b, tol, why):
    rows = np.shape(a) == np.shape(b)
    m = float(np.max(np.abs(b))) if np.size(b) else 1.0
    return {"kind": "same", "rows": bool(rows), "diff": q(float(np.max(np.abs(np.asarray(a, dtype=float) - b))) / (m or 1.0), 1e9) if rows and np.size(b) else 0, "tol": tol, "why": why}


def run(case):
    from PyEMD import EMD
    k = case["k"]
    if k == "axis":
        from PyEMD.utils import get_timeline
        v = get_timeline(case["n"], None if case["dt"] is None else np.dtype(case["dt"]))
        return [axis(v, case["n"], "helper")]
    if k == "passed":
        from PyEMD import CEEMDAN, EEMD
        S = (np.arange(case["n"]) % 7).astype(case["dt"])
        out = []
        for who, c in (("eemd", EEMD), ("ceemdan", CEEMDAN)):
            r = Rec()
            o = c(trials=2, parallel=False, ext_EMD=r)
            getattr(o, who)(S, None, 2)
            # a stage may also leave the axis out: then the trial decomposition uses its own index
            for t in r.ts:
                out.append(axis(t, case["n"], who))
        return out
    if k == "type":
        S = np.array(case["s"])
        if case["cfg"]["extrema_detection"] == "parabol" and np.any(np.diff(S) == 0):
            return []
        ref = call(case["who"], case["cfg"], S.astype(float), None, case["max_imf"])
        got = call(case["who"], case["cfg"], S.astype(case["dt"]), None, case["max_imf"])
        return [same(got, ref, 100, "integer")]
    if k == "type1":
        S = np.array(case["s"])
        ref = EMD(**case["cfg"]).emd(S.astype(float), None, 1)
        got = EMD(**case["cfg"]).emd(S.astype(case["dt"]), None, 1)
        return [same(got, ref, 1000000 if case["dt"] == "f" else 20000000, "single" if case["dt"] == "f" else "half")]
    if k == "simple":
        S = np.array(case["s"])
        T = np.array(case["t"])
        tk = case["tk"]
        if tk == "int":
            T = np.cumsum(np.arange(len(S)) % 3 + 1) - 50
        elif tk == "huge":
            T = T * 1e12
        elif tk == "tiny":
            T = T * 1e-13
        elif tk == "f4":
            T = T.astype("f4")
        cfg = {"spline_kind": case["spline"]}
        ref = call(case["who"], cfg, S, None, case["max_imf"])
        got = call(case["who"], cfg, S, T, case["max_imf"])
        return [same(got, ref, 0, "time-values")]
    if k == "para":
        S = np.array(case["s"])
        T = np.arange(len(S)) if case["ident"] else np.array(case["t"])
        cfg = {"extrema_detection": "parabol", "spline_kind": case["spline"]}
        if not case["exact"]:
            cfg["FIXE"] = 1
        ref = EMD(**cfg).emd(S, None if case["ident"] else T.astype(float), -1 if case["exact"] else 1)
        got = EMD(**cfg).emd(S, T * case["sc"] + case["off"], -1 if case["exact"] else 1)
        return [same(got, ref, 0 if case["exact"] else 100000, "time-units")]
    if k == "rejlen":
        S, T = np.sin(np.arange(case["n"]) * 2.0), np.arange(case["n"] + case["d"]) * 1.0
    else:
        S = np.sin(np.arange(20) * 2.0)
        T = np.arange(20) * 1.0
        if case["det"] == "simple" or case["who"] in ("matlab",):
            return []
        T[case["i"]] = T[case["i"] - 1]
    try:
        call(case["who"], {"extrema_detection": case["det"]}, S, T)
        rej = False
    except Exception:
        rej = True
    return [{"kind": "rej", "rejected": rej, "why": k + ":" + case["who"]}]


def stats(recs):
    return {"largest_difference_1e-9": {w: max([r["diff"] for r in recs if r["kind"] == "same" and r["why"] == w] or [0]) for w in ("integer", "single", "half", "time-values", "time-units")}}
