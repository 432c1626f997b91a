"""C19: two dimensional variants."""
import itertools
import math
import numpy as np
from vp.core import q
from vp.c01 import limbs
from vp.siftobs import cmp3

PROP, TRACE = "C19", "ImageTrace"
MODELS = [("GridMC", "GridMC.cfg", ("quick", "thorough")), ("ImageMC", "ImageMC.cfg", ("quick", "thorough"))]
ASSUMPTIONS = ["images that are not constant; runs are limited in rounds and components",
               "the round by round sifting rules are C20 and C21"]


def image(rng, kind=None, big=False):
    r, c = rng.choice([3, 4, 5, 6, 8, 12]) * (2 if big else 1), rng.choice([3, 4, 5, 7, 9, 11]) * (2 if big else 1)
    kind = kind or rng.choice(["int", "int", "few", "gauss", "waves", "ramp"])
    if kind == "int":
        m = rng.choice([1, 2, 5, 20])
        im = [[rng.randint(-m, m) for _ in range(c)] for _ in range(r)]
    elif kind == "few":
        im = [[0] * c for _ in range(r)]
        for _ in range(rng.randint(1, 6)):
            im[rng.randrange(r)][rng.randrange(c)] = rng.randint(-4, 4)
    elif kind == "gauss":
        im = [[rng.gauss(0, 1) for _ in range(c)] for _ in range(r)]
    elif kind == "waves":
        a, b, p = rng.uniform(0.3, 2), rng.uniform(0.3, 2), rng.uniform(0, 6)
        im = [[math.sin(a * i + p) + math.cos(b * j) + 0.3 * math.sin(2.1 * (i - j)) for j in range(c)] for i in range(r)]
    else:
        im = [[i + 2 * j + rng.choice([0, 0, 3]) for j in range(c)] for i in range(r)]
    return im


RANGE = {"u1": (0, 255), "i1": (-128, 127), "i2": (-32768, 32767), "u2": (0, 65535), "u1s": (0, 3), "f2": (-50, 50), "f4": (-1000, 1000)}


def typed(rng):
    """(image, type) using the whole range of a small type"""
    dt = rng.choice(sorted(RANGE))
    a, b = RANGE[dt]
    r, c = rng.choice([3, 5, 8, 12]), rng.choice([4, 5, 9, 11])
    return [[rng.choice([a, b, rng.randint(a, b), rng.randint(a, b)]) for _ in range(c)] for _ in range(r)], dt[:2]


def gen(tier, rng):
    for c in cases(tier, rng):
        if c["k"] not in ("peaks", "env") and not (c["k"] == "proto" and c["which"] == "BEMD"):
            yield dict(c, ledger=True)


def cases(tier, rng):
    big = tier == "thorough"
    for _ in range(2000 if big else 300):
        im, dt = typed(rng)
        yield {"k": "ext", "im": im, "v": 5, "dt": dt}
        yield {"k": "peaks", "im": im, "u": 1, "dt": dt}
        im, dt = typed(rng)
        which = rng.choice(["EMD2D", "EMD2D", "BEMD"])
        yield {"k": "run", "which": which, "cfg": {"MAX_ITERATION": rng.choice([1, 3]), "FIXE": rng.choice([0, 1])}, "im": im, "limit": rng.choice([1, 2]), "call": rng.random() < 0.5, "dt": dt}
    # candidates that meet the criterion in some rounds only
    for _ in range(1200 if big else 300):
        im = image(rng, rng.choice(["int", "gauss", "waves"]))
        sc = rng.choice([1, 3, 10])
        yield {"k": "run", "which": "BEMD", "cfg": {"MAX_ITERATION": rng.choice([6, 8, 10]), "FIXE": 0, "FIXE_H": rng.choice([2, 2, 3]), "mean_thr": rng.choice([0.5, 1, 2, 3, 5]) * sc}, "im": [[v * sc for v in r] for r in im], "limit": rng.choice([1, 1, 2]), "call": False, "dt": "d"}
    # almost symmetric images leave a small remainder
    for _ in range(400 if big else 100):
        r, c, e = rng.choice([4, 5, 6]), rng.choice([4, 5, 7]), rng.choice([1e-2, 1e-4, 1e-6])
        yield {"k": "run", "which": rng.choice(["BEMD", "BEMD", "EMD2D"]), "cfg": {"MAX_ITERATION": rng.choice([1, 2])}, "im": [[(4 if (i + j) % 2 else -4) + e * rng.uniform(-1, 1) for j in range(c)] for i in range(r)], "limit": 1, "call": False, "dt": "d"}
    for _ in range(600 if big else 150):
        yield {"k": "shift", "im": image(rng, rng.choice(["int", "ramp", "few"]), rng.random() < 0.7), "cfg": {"MAX_ITERATION": rng.choice([1, 2, 3]), "FIXE": rng.choice([0, 1, 2])}, "limit": rng.choice([1, 2]), "mul": rng.choice([1, 2, 8, 0.25]), "add": rng.choice([0, 64, -1024])}
    for v in itertools.product((0, 1), repeat=9):
        yield {"k": "ext", "im": [list(v[i:i + 3]) for i in (0, 3, 6)], "v": rng.randrange(5)}
        yield {"k": "peaks", "im": [list(v[i:i + 3]) for i in (0, 3, 6)], "u": 1}
    for _ in range(8000 if big else 1500):
        yield {"k": "ext", "im": image(rng), "v": rng.randrange(5)}
    for _ in range(6000 if big else 1000):
        yield {"k": "peaks", "im": image(rng, rng.choice(["int", "few", "ramp"])), "u": rng.choice([1, 1, 2, 4])}
    for _ in range(1500 if big else 300):
        yield {"k": "tile", "im": image(rng, rng.choice(["int", "few", "ramp"]))}
    for _ in range(2500 if big else 500):
        yield {"k": "env", "im": image(rng, rng.choice(["int", "few", "waves"])), "swap": rng.random() < 0.5}
    for _ in range(5000 if big else 1200):
        n = rng.choice([2, 3])
        sc = rng.choice([1, 0.1, 0.02, 0.005])
        prev = [[rng.gauss(0, 1) * sc for _ in range(n)] for _ in range(n)]
        mul = rng.choice([0, 1e-9, 0.005, 0.02, 0.5])
        new = [[x * (1 + mul * rng.uniform(-1, 1)) for x in r] for r in prev]
        ms, of = rng.choice([1, 0.1, 0.008, 0.001]), rng.choice([0, 0, 1])
        yield {"k": "proto", "which": rng.choice(["EMD2D", "BEMD"]), "prev": prev, "new": new, "mean": [[rng.gauss(0, 1) * ms + of for _ in range(n)] for _ in range(n)],
               "cfg": {"mean_thr": rng.choice([0.01, 0.01, 0.05, 0.0]), "mse_thr": rng.choice([0.01, 0.01, 0.5, 1e-6])}}
    for _ in range(1000 if big else 300):
        n = rng.choice([2, 3])
        rows = [[[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)] for _ in range(rng.randint(1, 3))]
        yield {"k": "end", "which": rng.choice(["EMD2D", "BEMD"]), "rows": rows, "err": rng.choice([0, 1e-10, 1e-7, 1e-4, 0.1]), "at": rng.randrange(n * n)}
    for _ in range(6000 if big else 1500):
        which = rng.choice(["EMD2D", "EMD2D", "BEMD"])
        cfg = {"MAX_ITERATION": rng.choice([1, 2, 3, 5, 8])}
        x = rng.random()
        if x < 0.3:
            cfg["FIXE"] = rng.choice([1, 2, 3])
        elif x < 0.6:
            cfg["FIXE"], cfg["FIXE_H"] = 0, rng.choice([1, 2, 3])
        elif which == "BEMD" and x < 0.85:
            cfg["FIXE"] = 0
        if rng.random() < 0.3:
            cfg["mean_thr"], cfg["mse_thr"] = rng.choice([0.01, 0.1, 1.0]), rng.choice([0.01, 0.1])
        im = image(rng, rng.choice(["int", "gauss", "waves", "few", "ramp"]), which == "EMD2D" and rng.random() < 0.4)
        sc, of = rng.choice([1, 1, 1, 100, 0.01]), rng.choice([0, 0, 7, -300])
        yield {"k": "run", "which": which, "cfg": cfg, "im": [[v * sc + of for v in r] for r in im], "limit": rng.choice([1, 1, 2, 3]), "call": rng.random() < 0.5,
               "dt": "i" if all(isinstance(v, int) for r in im for v in r) and sc == 1 and rng.random() < 0.3 else "d"}


DEFAULT = {"EMD2D": {"mse_thr": 0.01, "mean_thr": 0.01, "FIXE": 0, "FIXE_H": 0, "MAX_ITERATION": 1000},
           "BEMD": {"mse_thr": 0.01, "mean_thr": 0.01, "FIXE": 1, "FIXE_H": 0, "MAX_ITERATION": 5}}


def asked(which, cfg):
    """measure with what was asked for"""
    e = build(which, {})
    for k, v in {**DEFAULT[which], **cfg}.items():
        setattr(e, k, v)
    return e


def build(which, cfg):
    if which == "EMD2D":
        from PyEMD.EMD2d import EMD2D
        return EMD2D(**cfg)
    from PyEMD.BEMD import BEMD
    b = BEMD()
    for k, v in cfg.items():
        setattr(b, k, v)
    return b


def close3(a, b, rtol, atol=1e-8):
    """is a within atol + rtol |b| of b everywhere?  -1 yes, 1 no, 0 too close to call"""
    lim = atol + rtol * np.abs(b)
    x = np.abs(a - b) - lim
    sl = 1e-6 * lim + 1e-13 * np.maximum(np.abs(a), np.abs(b)) if True else 0
    if np.any(x > sl):
        return 1
    return -1 if np.all(x < -sl) else 0


YN = {-1: "y", 0: "e", 1: "n"}


def crit(e, which, new, prev, mean):
    return {"me": cmp3(float(np.max(np.abs(mean - mean.mean()))), e.mean_thr, 1e-9), "ch": close3(new, prev, 1e-5 if which == "EMD2D" else 0.01),
            "ab": cmp3(float(np.mean(np.abs(new))), e.mean_thr, 1e-9), "ms": cmp3(float(np.mean(new * new)), e.mse_thr, 1e-9)}


def grid(A):
    return [[int(x) for x in r] for r in A]


def pairs(p, swap=False):
    a, b = (p[1], p[0]) if swap else (p[0], p[1])
    return [[int(x), int(y)] for x, y in zip(a, b)]


def decompose(case, im):
    e = build(case["which"], case["cfg"])
    if case["call"]:
        return e(im, case["limit"])
    return e.emd(im, max_imf=case["limit"]) if case["which"] == "EMD2D" else e.bemd(im, max_imf=case["limit"])


def tune(case):
    """choose a mean threshold that some rounds of the first component meet, then not, then again"""
    e, f = asked(case["which"], case["cfg"]), np.array(case["im"], dtype=float)
    plain = case["which"] == "EMD2D"
    h = (f - f.min()) / (np.ptp(f) or 1) if plain else f
    sw = []
    for _ in range(e.MAX_ITERATION):
        lo, hi = e.find_extrema(h) if plain else e.find_extrema_positions(h)
        if min(len(lo[0]), len(hi[0])) < (5 if plain else 2):
            break
        a, b = e.extract_max_min_spline(h) if plain else e.extract_max_min_spline(h, lo, hi)
        mean = 0.5 * (a + b)
        h = h - mean
        if not np.all(np.isfinite(h)):
            break
        sw.append(float(np.max(np.abs(mean - mean.mean()))))
    ups = [k for k in range(2, len(sw)) if sw[k] > sw[k - 1] * 1.01]
    if not ups:
        return None
    k = ups[case["tune"] % len(ups)]
    return dict(case, cfg=dict(case["cfg"], mean_thr=(sw[k] + sw[k - 1]) / 2, mse_thr=1e-9))


def observe(case):
    if "tune" in case:
        case = tune(case)
        if case is None:
            return []
    im = np.array(case["im"], dtype={"i": int, "d": float}.get(case["dt"], case["dt"]))
    if np.ptp(im) == 0:
        return []
    I0 = im.copy()
    out = np.array(decompose(case, im))
    shape = bool(out.ndim == 3 and out.shape[1:] == im.shape)
    rec = {"kind": "ledger", "shape": shape, "finite": bool(np.all(np.isfinite(out))), "same": bool(np.array_equal(im, I0)), "limit": case["limit"]}
    if not (shape and rec["finite"]):
        return [rec]
    f = I0.astype(float)
    M = max(float(np.max(np.abs(f))), float(np.max(np.abs(out))) if out.size else 0, 1e-300)
    sc = float(np.ptp(f)) if case["which"] == "EMD2D" else 1.0
    rec.update(s=limbs(f.ravel(), M), rows=[limbs(x.ravel(), M) for x in out], slack=int(min(2 ** 27, 1.1e-8 * sc / M * 2 ** 50 + 1)))
    recs = [rec]
    if not case.get("ledger"):
        r = trace(case, f, out, M)
        if r:
            recs.append(r)
    return recs


def trace(case, f, out, M):
    which = case["which"]
    rs = np.random.RandomState(7)
    for eps in (1e-11, 1e-11):
        o = np.array(decompose(case, f + eps * M * rs.uniform(-1, 1, f.shape)))
        if o.shape != out.shape or np.max(np.abs(o - out)) > 1e-7 * M:
            return None
    if which == "EMD2D":  # works on the image brought to 0..1
        sc, of = float(np.ptp(f)), float(f.min())
        f, out, M = (f - of) / sc, out / sc, 1.0
        out[-1] -= of / sc
        M = max(1.0, float(np.max(np.abs(out))))
    e = asked(which, case["cfg"])
    rule, par = ("fixe", e.FIXE) if e.FIXE else ("fixeh", e.FIXE_H) if e.FIXE_H else ("default", 0)
    rec = {"kind": "run2", "which": which, "rule": rule, "par": par, "cap": e.MAX_ITERATION, "limit": case["limit"], "modes": [], "rest": []}
    for k in range(len(out)):
        h = f - np.sum(out[:k], axis=0)
        m = {"few": [], "c": [], "hit": [bool(np.max(np.abs(h - out[k])) <= 1e-6 * M)]}
        for n in range(e.MAX_ITERATION):
            lo, hi = e.find_extrema(h) if which == "EMD2D" else e.find_extrema_positions(h)
            few = min(len(lo[0]), len(hi[0])) < (5 if which == "EMD2D" else 2)
            if np.ptp(h) < 1e-9 * M:
                return None  # flat up to rounding, number of extrema means nothing
            for _ in range(3):
                g = h + 1e-13 * M * rs.uniform(-1, 1, h.shape)
                lo2, hi2 = e.find_extrema(g) if which == "EMD2D" else e.find_extrema_positions(g)
                if few != (min(len(lo2[0]), len(hi2[0])) < (5 if which == "EMD2D" else 2)):
                    return None
            m["few"].append(bool(few))
            if few:
                break
            a, b = e.extract_max_min_spline(h) if which == "EMD2D" else e.extract_max_min_spline(h, lo, hi)
            mean = 0.5 * (a + b)
            prev, h = h, h - mean
            m["c"].append(crit(e, which, h, prev, mean))
            m["hit"].append(bool(np.max(np.abs(h - out[k])) <= 1e-6 * M))
        acc = np.sum(out[:k + 1], axis=0)
        m["end"] = YN[close3(f, acc, 1e-5)]
        rec["modes"].append(m)
        rec["rest"].append(YN[close3(f - acc, 0 * f, 0)])
    rec["lastisrest"] = bool(np.max(np.abs(f - np.sum(out[:-1], axis=0) - out[-1])) <= 1e-10 * M)
    return rec


def run(case):
    k = case["k"]
    if k == "ext":
        from PyEMD.EMD2d import EMD2D
        A = np.array(case["im"], dtype=float)
        u = {v: i for i, v in enumerate(sorted(set(A.ravel())))}
        S = [A, A * 0.3 + 5, A * 1e-7, A * 1e6 - 3, A + 0.0, A.astype(case.get("dt", "d"))][case["v"]]
        S0 = S.copy()
        lo, hi = EMD2D.find_extrema(S) if case["v"] != 4 else EMD2D().find_extrema(S)
        if len(set(S0.ravel())) != len(u):
            return []
        return [{"kind": "ext2", "img": [[u[x] for x in r] for r in A], "omin": pairs(lo), "omax": pairs(hi), "same": bool(np.array_equal(S, S0))}]
    if k == "tile":
        from PyEMD.EMD2d import EMD2D
        A = np.array(case["im"], dtype=float)
        A0 = A.copy()
        B = EMD2D.prepare_image(A)
        return [{"kind": "tile", "img": grid(A0), "big": grid(B), "same": bool(np.array_equal(A, A0))}]
    if k == "peaks":
        from PyEMD.BEMD import BEMD
        A = np.array(case["im"], dtype=case["dt"]) if "dt" in case else np.array(case["im"], dtype=float) / case["u"]
        A0 = A.copy()
        lo, hi = BEMD.find_extrema_positions(A)
        return [{"kind": "peaks", "img": grid(A0 * case["u"]), "h": case["u"], "omin": pairs(lo, True), "omax": pairs(hi, True), "same": bool(np.array_equal(A, A0))}]
    if k == "env":
        from PyEMD.BEMD import BEMD
        A = np.array(case["im"], dtype=float)
        b = BEMD()
        lo, hi = b.find_extrema_positions(A)
        if len(lo[0]) < 2 or len(hi[0]) < 2:
            return []
        a, c = b.extract_max_min_spline(A, lo, hi)
        ok = bool(np.shape(a) == A.shape == np.shape(c))
        if not ok:
            return [{"kind": "env2", "shape": False, "miss": 0, "lin": 0}]
        miss = lin = 0.0
        M = float(np.max(np.abs(A))) or 1.0
        for env, (px, py) in ((a, lo), (c, hi)):
            # the cubic radial interpolant through the extrema, solved here
            P = np.array([px, py], dtype=float).T
            G = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1)) ** 3
            if np.linalg.cond(G) > 1e7:
                continue
            w = np.linalg.solve(G, A[py, px])
            X, Y = np.meshgrid(np.arange(A.shape[1]), np.arange(A.shape[0]))
            D = np.sqrt((X[..., None] - P[:, 0]) ** 2 + (Y[..., None] - P[:, 1]) ** 2) ** 3
            miss = max(miss, float(np.max(np.abs(env[py, px] - A[py, px]))) / M)
            lin = max(lin, float(np.max(np.abs(D @ w - env))) / max(M, float(np.max(np.abs(D @ w)))))
        return [{"kind": "env2", "shape": True, "miss": q(miss, 1e7), "lin": q(lin, 1e7)}]
    if k == "proto":
        e, given = asked(case["which"], case["cfg"]), build(case["which"], case["cfg"])
        new, prev, mean = (np.array(case[x]) for x in ("new", "prev", "mean"))
        return [{"kind": "proto", "which": case["which"], "c": crit(e, case["which"], new, prev, mean), "got": bool(given.check_proto_imf(new, prev, mean))}]
    if k == "end":
        e = build(case["which"], {})
        rows = np.array(case["rows"])
        im = rows.sum(axis=0)
        im.ravel()[case["at"]] += case["err"]
        return [{"kind": "end2", "w": YN[close3(im, rows.sum(axis=0), 1e-5)], "got": bool(e.end_condition(im, rows))}]
    if k == "shift":
        A = np.array(case["im"], dtype=float)
        if np.ptp(A) == 0:
            return []
        c = {"which": "EMD2D", "cfg": case["cfg"], "limit": case["limit"], "call": False}
        o, p = decompose(c, A + 3), decompose(c, (A + 3) * case["mul"] + case["add"])
        if not np.all(np.isfinite(o)) or not np.all(np.isfinite(p)) or o.shape != p.shape:
            return [{"kind": "shift2", "same": bool(o.shape == p.shape), "dev": [0]}]
        e = o * case["mul"]
        e[-1] += case["add"]
        M = max(float(np.max(np.abs(e))), 1e-300)
        return [{"kind": "shift2", "same": True, "dev": [q(float(np.max(np.abs(x - y))) / M, 1e7) for x, y in zip(e, p)]}]
    return observe(case)


def stats(recs):
    d = {k: [r for r in recs if r["kind"] == k] for k in ("ledger", "run2")}
    return {"largest_image": max([len(r["s"]) for r in d["ledger"] if "s" in r] or [0]), "most_components": max([len(r["rows"]) for r in d["ledger"] if "rows" in r] or [0]),
            "sifted": sum(any(len(m["few"]) > 1 for m in r["modes"]) for r in d["run2"])}
