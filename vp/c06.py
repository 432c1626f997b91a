"""C06: boundary extension (knots of the envelopes)."""
import itertools
import numpy as np
from vp.sig import rand_signal
from vp.core import q

PROP, TRACE = "C06", "MirrorTrace"
MODELS = [("MirrorMC", "MirrorMC.cfg", ("quick",)), ("MirrorMC", "MirrorMC11.cfg", ("thorough",))]
ASSUMPTIONS = ["three or more alternating extrema (what emd() guarantees to the extension)",
               "parabolic mode on real signals: near ties of the reach comparison are left out"]
U = 1024


def gen(tier, rng):
    big = tier == "thorough"
    # integer signals, exhaustively, through the whole extrema+extension path (default mode)
    for n in (6, 7, 8) if big else (6, 7):
        for k, s in enumerate(itertools.product((-1, 0, 1), repeat=n)):
            yield {"how": "signal", "mode": "simple", "s": list(s), "nb": 1 + (sum((i + 1) * x for i, x in enumerate(s)) + k) % 3}
    for _ in range(30000 if big else 4000):
        n = rng.choice([6, 8, 11, 16, 30, 60])
        s = rand_signal(rng, n) if rng.random() < 0.6 else [float(rng.randint(-6, 6)) for _ in range(n)]
        yield {"how": "signal", "mode": rng.choice(["simple", "simple", "parabol"]), "s": s, "nb": rng.choice([1, 2, 2, 3, 5])}
    # synthetic extrema handed to the public preparation step; quarter units in parabolic mode
    for _ in range(40000 if big else 6000):
        mode = rng.choice(["simple", "parabol"])
        n = rng.choice([6, 9, 14])
        u = 1 if mode == "simple" else 4
        k = rng.randint(3, min(8, n - 2))
        pos = sorted(rng.sample(range(1 if u == 1 else 2, (n - 2) * u + (1 if u == 1 else 2)), k))
        fm = rng.random() < 0.5
        val, up = [], fm
        for _ in pos:
            val.append(rng.randint(2, 6) if up else rng.randint(-6, -2))
            up = not up
        yield {"how": "points", "mode": mode, "n": n, "pos": pos, "val": val, "fm": fm, "ends": [rng.randint(-8, 8), rng.randint(-8, 8)], "nb": rng.choice([1, 2, 2, 3, 5])}


def run(case):
    from PyEMD import EMD
    e = EMD(nbsym=case["nb"], extrema_detection=case["mode"], spline_kind="linear")
    if case["how"] == "points":
        n, mode = case["n"], case["mode"]
        u = 1 if mode == "simple" else 4
        hi = [(p, v) for j, (p, v) in enumerate(zip(case["pos"], case["val"])) if (j % 2 == 0) == case["fm"]]
        lo = [(p, v) for j, (p, v) in enumerate(zip(case["pos"], case["val"])) if (j % 2 == 0) != case["fm"]]
        S = np.zeros(n)
        S[0], S[-1] = case["ends"]
        if mode == "simple":
            for p, v in hi + lo:
                S[p] = v
        T = np.arange(n, dtype=float)
        arr = lambda k, l: np.array([x[k] for x in l], dtype=float)
        args = [T, S, arr(0, hi) / u, arr(1, hi), arr(0, lo) / u, arr(1, lo)]
        cp = [x.copy() for x in args]
        mx, mn = e.prepare_points(*args)
        same = all(np.array_equal(x, y) for x, y in zip(args, cp))
        out = [[[q(p * u, 1) if p * u == round(p * u) else -10 ** 6, q(v, 1) if v == round(v) else 10 ** 6] for p, v in zip(*k)] for k in (mx, mn)]
        return [{"kind": "mirror", "mode": mode, "hi": [list(x) for x in hi], "lo": [list(x) for x in lo], "a": 0, "sa": case["ends"][0],
                 "b": (n - 1) * u, "sb": case["ends"][1], "nb": case["nb"], "omax": out[0], "omin": out[1], "tol": 0, "same": same}]
    S = np.array(case["s"], dtype=float)
    n = len(S)
    T = np.arange(n, dtype=float)
    mp, mv, lp, lv, _ = EMD(extrema_detection=case["mode"]).find_extrema(T, S)
    if len(mp) + len(lp) < 3:
        return []
    sc, tol = 1, 0
    if case["mode"] == "parabol":
        sc, tol = U, 3
        kinds = sorted([(p, 1) for p in mp] + [(p, 0) for p in lp])
        if any(a[1] == b[1] or b[0] - a[0] < 0.01 for a, b in zip(kinds, kinds[1:])):
            return []  # outside the domain: not (clearly) alternating
        ends = ((T[0], kinds[0][0], kinds[1][0]), (-T[-1], -kinds[-1][0], -kinds[-2][0]))
        if any(abs((o - c) - (c - a)) < 0.01 for a, c, o in ends):
            return []  # reach decided by rounding
    S0, T0 = S.copy(), T.copy()
    _, _, mx, mn = e.extract_max_min_spline(T, S)
    same = bool(np.array_equal(S, S0) and np.array_equal(T, T0))
    vals = sorted({float(x) for x in S} | {float(x) for x in mv} | {float(x) for x in lv})
    rk = {v: i for i, v in enumerate(vals)}
    R = lambda v: rk.get(float(v), -999)
    P = lambda p: q(float(p), sc) if sc != 1 or float(p) == round(float(p)) else -10 ** 6
    K = lambda ps, vs: [[P(a), R(b)] for a, b in zip(ps, vs)]
    return [{"kind": "mirror", "mode": case["mode"], "hi": K(mp, mv), "lo": K(lp, lv), "a": 0, "sa": R(S0[0]), "b": (n - 1) * sc, "sb": R(S0[-1]),
             "nb": case["nb"], "omax": K(*mx), "omin": K(*mn), "tol": tol, "same": same}]


def stats(recs):
    r = [x for x in recs if x["kind"] == "mirror"]
    return {"parabolic": sum(x["mode"] == "parabol" for x in r), "end_sample_joined": sum(1 for x in r if any(p == x["a"] for p, _ in x["omax"] + x["omin"]))}
