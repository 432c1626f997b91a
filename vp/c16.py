"""C16: compact schemes."""
import numpy as np
from vp.core import q

PROP, TRACE = "C16", "CompactTrace"
MODELS = [("CompactMC", "CompactMC.cfg", ("quick", "thorough"))]
ASSUMPTIONS = ["results transferred with 1/16384 resolution for data up to 10 in magnitude; filter strengths in steps of 1/8 from -3/8 to 1/2 (others through polynomials only)"]
U = 16384


def gen(tier, rng):
    big = tier == "thorough"
    # every position of a unit impulse for every length up to a bound: both schemes are linear
    for n in range(7, 40 if big else 20):
        for j in range(n):
            v = [0] * n
            v[j] = 10
            yield {"k": "pade", "v": v, "h": 1.0}
            if n >= 7:
                for p in range(-3, 5):
                    yield {"k": "filt", "v": v, "p": p}
    for _ in range(10000 if big else 2000):
        n = rng.choice([7, 8, 9, 11, 20, 33, 60])
        v = [rng.randint(-10, 10) for _ in range(n)]
        yield {"k": "pade", "v": v, "h": rng.choice([1.0, 0.5, 0.01, 3.7, 1e-6, 250.0]), "dt": rng.choice(["d", "d", "i8", "f"])}
    for _ in range(10000 if big else 2000):
        n = rng.choice([7, 8, 9, 12, 20, 33, 60])
        yield {"k": "filt", "v": [rng.randint(-10, 10) for _ in range(n)], "p": rng.randint(-3, 4), "dt": rng.choice(["d", "d", "i8", "f"])}
    for _ in range(10000 if big else 2000):
        n = rng.choice([1, 2, 2, 3, 4, 6, 10, 30])
        a = [rng.randint(-4, 4) for _ in range(n)]
        c = [rng.randint(-4, 4) for _ in range(n)]
        b = [rng.choice([-1, 1]) * (abs(x) + abs(y) + rng.randint(1, 8)) for x, y in zip(a, c)]
        yield {"k": "tdma", "a": a, "b": b, "c": c, "d": [rng.randint(-20, 20) for _ in range(n)], "dt": rng.choice(["d", "i8"])}
    for _ in range(3000 if big else 600):
        yield {"k": "poly", "n": rng.choice([7, 9, 15, 40]), "deg": rng.randint(0, 5), "h": rng.choice([1.0, 0.1, 0.003, 12.0]), "o": rng.choice([0.0, -3.0, 5.0]), "c": [rng.uniform(-1, 1) for _ in range(6)], "alpha": rng.uniform(-0.45, 0.49)}


def run(case):
    from PyEMD.compact import TDMAsolver, filt6, pade6
    k = case["k"]
    if k == "pade":
        v = np.array(case["v"]).astype(case.get("dt", "d"))
        y = np.asarray(pade6(v, case["h"])) * case["h"]
        return [{"kind": "pade", "v": case["v"], "y": [q(float(x), U) for x in y]}]
    if k == "filt":
        v = np.array(case["v"]).astype(case.get("dt", "d"))
        y = np.asarray(filt6(v, case["p"] / 8))
        return [{"kind": "filt", "v": case["v"], "p": case["p"], "y": [q(float(x), U) for x in y]}]
    if k == "tdma":
        A = [np.array(case[x]).astype(case["dt"]) for x in "abcd"]
        x = TDMAsolver(*A)
        return [{"kind": "tdma", **{z: case[z] for z in "abcd"}, "x": [q(float(t), U) for t in x]}]
    n, h = case["n"], case["h"]
    t = (np.arange(n) + case["o"]) * h
    P = np.poly1d(case["c"][:case["deg"] + 1])
    f, g = P(t), P.deriv()(t)
    out = [{"kind": "poly", "what": "derivative", "err": q(float(np.max(np.abs(pade6(f, h) - g)) / max(np.max(np.abs(g)), np.max(np.abs(f)) / h, 1e-12)), 1e9)}]
    P = np.poly1d(case["c"][:min(case["deg"], 3) + 1])
    f = P(t)
    out.append({"kind": "poly", "what": "filter", "err": q(float(np.max(np.abs(filt6(f, case["alpha"]) - f)) / max(np.max(np.abs(f)), 1e-12)), 1e9)})
    alt = (-1.0) ** np.arange(n)
    out.append({"kind": "poly", "what": "highest-frequency", "err": q(float(np.max(np.abs(filt6(alt, case["alpha"])))), 1e9)})
    mid = np.zeros(n + 12)
    mid[8:8 + n - 4] = np.random.RandomState(n).normal(size=n - 4)
    out.append({"kind": "poly", "what": "strength-one-half", "err": q(float(np.max(np.abs(filt6(mid, 0.5) - mid))), 1e9)})
    return out
