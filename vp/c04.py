"""C04: default (sample) extrema detection and zero crossings."""
import itertools
import numpy as np
from vp.sig import rand_signal, ranks

PROP, TRACE = "C04", "ExtremaTrace"
MODELS = [("ExtremaMC", "ExtremaMC.cfg", ("quick",)), ("ExtremaMC", "ExtremaMC5.cfg", ("thorough",))]
ASSUMPTIONS = ["verdict uses only order and sign of the samples (exact on floats)"]


def gen(tier, rng):
    big = tier == "thorough"
    for n in range(3, 10 if big else 9):
        for s in itertools.product((-1, 0, 1), repeat=n):
            yield {"s": list(s), "v": (sum((i + 2) * x for i, x in enumerate(s)) + n) % 8}
    for n in range(3, 8 if big else 6):
        for s in itertools.product((-2, -1, 0, 1, 2), repeat=n):
            yield {"s": list(s), "v": (sum((i + 2) * x for i, x in enumerate(s)) + n) % 8}
    for _ in range(40000 if big else 3000):
        n = rng.choice([3, 5, 8, 13, 21, 40, 80])
        yield {"s": rand_signal(rng, n), "v": rng.randrange(8)}


def apply(case):
    s, v = case["s"], case["v"]
    n = len(s)
    S = np.array(s, dtype=float)
    T = np.arange(n, dtype=float)
    if v == 1:
        S, T = S * 0.37, T * 0.01 + 5
    elif v == 2:
        S = S * 1e-6
    elif v == 3:
        S = S * 1e6
        T = np.cumsum(1 + (np.arange(n) * 7 % 5)).astype(float)
    elif v == 4:
        S = np.sign(S) * np.sqrt(np.abs(S))
    elif v == 5:
        S, T = (S * 64).astype(np.float32), T.astype(np.float32)
    elif v == 6:                         # products of such values are below the smallest positive number
        S = S * 2.0 ** -700
    elif v == 7:
        S, T = (S * 2.0 ** -13).astype(np.float16), T.astype(np.float16)
    return S, T


def observe(find, S, T):
    S0, T0 = S.copy(), T.copy()
    mp, mv, np_, nv, z = find(T, S)
    same = bool(np.array_equal(S, S0) and np.array_equal(T, T0))
    rk, u = ranks([float(x) for x in S0])
    tpos = {float(t): i for i, t in enumerate(T0)}
    return {"kind": "simple", "s": rk, "z": [int(np.sign(x)) for x in S0],
            "maxp": [tpos.get(float(x), -1) for x in mp], "maxv": [u.get(float(x), -99) for x in mv],
            "minp": [tpos.get(float(x), -1) for x in np_], "minv": [u.get(float(x), -99) for x in nv],
            "zer": [int(x) if float(x) == int(x) else -1 for x in z], "same": same}


def run(case):
    from PyEMD import EMD
    S, T = apply(case)
    return [observe(EMD().find_extrema, S, T)]


def stats(recs):
    r = [x for x in recs if x["kind"] == "simple"]
    return {"with_extrema": sum(1 for x in r if x["maxp"] or x["minp"]), "with_plateau": sum(1 for x in r if any(a == b for a, b in zip(x["s"], x["s"][1:])))}
