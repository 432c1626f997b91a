"""C05: parabolic extrema."""
import itertools
import numpy as np
from vp.core import q

PROP, TRACE = "C05", "ParabolaTrace"
MODELS = [("ParabolaMC", "ParabolaMC.cfg", ("quick", "thorough"))]
ASSUMPTIONS = ["integer samples and integer (or dyadic) times; with uneven time a vertex exactly on a cell border may be counted or not", "samples of size 1e-10 or more"]
P = V = 256


def gen(tier, rng):
    big = tier == "thorough"
    for n in range(3, 8 if big else 7):
        for s in itertools.product((-1, 0, 1), repeat=n):
            yield {"s": list(s), "t": list(range(n)), "v": rng.randrange(5)}
    for n in (4, 5, 6) if big else (4, 5):
        for s in itertools.product((-2, -1, 0, 1, 2), repeat=n):
            yield {"s": list(s), "t": list(range(n)), "v": rng.randrange(5)}
    for _ in range(60000 if big else 8000):
        n = rng.choice([3, 4, 6, 9, 15, 25])
        m = rng.choice([2, 5, 12])
        s = [rng.randint(-m, m) for _ in range(n)]
        if rng.random() < 0.4:
            t, x = [], rng.choice([0, -4, 7])
            for _ in range(n):
                t.append(x)
                x += rng.randint(1, 3)
        else:
            o = rng.choice([0, 0, -6, 11])
            t = [o + i for i in range(n)]
        yield {"s": s, "t": t, "v": rng.randrange(5)}


def run(case):
    from PyEMD import EMD
    # unit scalings are powers of two so that integer relations stay exact
    ts = [1.0, 0.25, 1.0, 4.0, 1.0][case["v"]]
    ss = [1.0, 1.0, 0.5, 1024.0, 2.0 ** -33][case["v"]]
    S = np.array(case["s"], dtype=float) * ss
    T = np.array(case["t"], dtype=float) * ts
    S0, T0 = S.copy(), T.copy()
    mp, mv, np_, nv, z = EMD(extrema_detection="parabol").find_extrema(T, S)
    d = np.diff(case["t"])
    return [{"kind": "parabol", "t": case["t"], "s": case["s"], "even": bool(np.all(d == d[0])),
             "max": [[q(a / ts, P), q(b / ss, V)] for a, b in zip(mp, mv)], "min": [[q(a / ts, P), q(b / ss, V)] for a, b in zip(np_, nv)],
             "zer": [int(x) if float(x) == int(x) else -1 for x in z], "same": bool(np.array_equal(S, S0) and np.array_equal(T, T0))}]


def stats(recs):
    r = [x for x in recs if x["kind"] == "parabol"]
    return {"with_extrema": sum(1 for x in r if x["max"] or x["min"]), "uneven": sum(1 for x in r if not x["even"])}
