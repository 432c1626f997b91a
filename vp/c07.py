"""C07: envelopes are the selected interpolating spline."""
import itertools
import numpy as np
from vp.core import q
from vp.sig import rand_signal

PROP, TRACE = "C07", "SplineTrace"
MODELS = [("SplineMC", "SplineMC.cfg", ("quick",)), ("SplineMC", "SplineMC5.cfg", ("thorough",))]
ASSUMPTIONS = ["integer knots with gaps 1..4 and values -8..8 for the exact definitions; slopes compared to 0.1 % of a unit",
               "three or more knots (the boundary extension always gives that many)"]
KINDS = ["linear", "slinear", "quadratic", "cubic", "akima", "pchip", "cubic_hermite"]
Q = 65536


def gen(tier, rng):
    big = tier == "thorough"
    for kd in KINDS:
        for h in itertools.product((1, 2, 3), repeat=2):
            for y in itertools.product((-1, 0, 2), repeat=3):
                yield {"k": "spline", "sk": kd, "h": list(h), "y": list(y), "o": 0, "cut": [0, 0]}
        for _ in range(5000 if big else 700):
            n = rng.choice([3, 4, 4, 5, 6, 8, 12])
            yield {"k": "spline", "sk": kd if rng.random() < .9 else kd.upper(), "h": [rng.randint(1, 4) for _ in range(n - 1)],
                   "y": [rng.randint(-8, 8) for _ in range(n)], "o": rng.choice([0, 0, -7, 20]), "cut": [0, 0]}
        for _ in range(1500 if big else 150):
            yield {"k": "env", "sk": kd, "s": rand_signal(rng, rng.choice([8, 12, 25, 60])), "nb": rng.choice([1, 2, 3])}
    for nm in ["cubicc", "", "spline", "hermite", "quintic"]:
        yield {"k": "unknown", "sk": nm}


def observe(points, case):
    """points(T, knots) -> times, values"""
    x = np.cumsum([case["o"]] + case["h"]).astype(float)
    y = np.array(case["y"], dtype=float)
    T = np.concatenate([x[j] + case["h"][j] * np.arange(4) / 4 for j in range(len(x) - 1)] + [x[-1:]])
    K = np.array([x, y])
    K0, T0 = K.copy(), T.copy()
    t, s = points(T, K)
    tok = bool(np.shape(t) == T.shape == np.shape(s) and np.array_equal(t, T0) and np.array_equal(K, K0) and np.array_equal(T, T0))
    # a time axis strictly inside the knots, as in real use, must give the same values
    cut = T[1:-1]
    t2, s2 = points(cut, K)
    tok = tok and np.shape(s2) == cut.shape and np.array_equal(t2, cut) and bool(np.allclose(s2, s[1:-1], rtol=0, atol=1e-9))
    if np.shape(s) != T.shape:
        return [{"kind": "shape"}]
    f = [[q(float(v), Q) for v in s[4 * j:4 * j + 5]] for j in range(len(x) - 1)]
    if max(abs(v) for p in f for v in p) > 40 * Q:
        if all(abs(v) < 1e9 for v in s):
            return []  # overshoot outside the fixed point range
    return [{"kind": "spline", "sk": case["sk"].lower(), "x": [int(v) for v in x], "y": case["y"], "f": f, "tok": bool(tok)}]


def run(case):
    from PyEMD import EMD
    e = EMD(spline_kind=case["sk"])
    if case["k"] == "unknown":
        try:
            e.spline_points(np.arange(6.0), np.array([[-1.0, 1, 3, 7], [0.0, 1, 0, 1]]))
            ok = False
        except ValueError:
            ok = True
        return [{"kind": "unknown", "rejected": ok}]
    if case["k"] == "spline":
        return observe(e.spline_points, case)
    S = np.array(case["s"])
    T = np.arange(len(S), dtype=float)
    e = EMD(spline_kind=case["sk"], nbsym=case["nb"])
    r = e.extract_max_min_spline(T, S)
    if not hasattr(r[0], "shape"):
        return [{"kind": "env", "few": True, "miss": 0, "diff": 0, "len": True}]
    sc = 1.0 / (np.max(np.abs(S)) + 1e-300)
    miss = diff = 0.0
    ok = True
    for env, K in ((r[0], r[2]), (r[1], r[3])):
        if np.shape(env) != S.shape:
            ok = False
            continue
        for p, v in zip(*K):
            if 0 <= p <= len(S) - 1:
                miss = max(miss, abs(env[int(p)] - v) * sc)
        diff = max(diff, np.max(np.abs(EMD(spline_kind=case["sk"]).spline_points(T, K)[1] - env)) * sc)
    return [{"kind": "env", "few": False, "miss": q(miss, 1e9), "diff": q(float(diff), 1e9), "len": bool(ok)}]


def stats(recs):
    d = {}
    for r in recs:
        if r["kind"] == "spline":
            d[r["sk"]] = d.get(r["sk"], 0) + 1
    return {"by_spline": d, "envelopes": sum(1 for r in recs if r["kind"] == "env" and not r["few"])}
