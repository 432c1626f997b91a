"""C01: completeness of EMD."""
import math
import numpy as np
from vp.sig import layout
from vp.siftobs import rand_case
from vp.c02 import MODELS  # noqa: the Emd state machine (conservation is its invariant Complete)

PROP, TRACE = "C01", "LedgerTrace"
ASSUMPTIONS = ["parabolic detection only for signals whose neighbouring samples differ", "rounding allowance 1.5e-11 of the largest magnitude involved",
               "at least two samples"]
B = 2 ** 25


def limbs(v, M):
    x = v / M * B
    hi = np.round(x)
    lo = np.round((x - hi) * B)
    return [[int(a), int(b)] for a, b in zip(hi, lo)]


def gen(tier, rng):
    big = tier == "thorough"
    # all short integer signals: every pattern of plateaus, monotone stretches and turning points
    import itertools
    for n in (2, 3, 4, 5, 6) if big else (2, 3, 4, 5):
        for s in itertools.product((-1, 0, 2), repeat=n):
            yield {"s": [float(x) for x in s], "t": None, "cfg": {}, "max_imf": -1, "dt": "d"}
    for _ in range(25000 if big else 4500):
        c = rand_case(rng)
        if "MAX_ITERATION" in c["cfg"] and rng.random() < 0.7:
            c["cfg"]["MAX_ITERATION"] = rng.choice([2, 5, 100])
        x = rng.random()
        c["dt"] = "d"
        if x < 0.12:
            f = rng.choice([1e-9, 1e-6, 1e-3, 1e5, 1e9])
            c["s"] = [v * f for v in c["s"]]
        elif x < 0.2:
            c["s"] = [v + rng.choice([1e3, -1e5, 1e7]) for v in c["s"]] if rng.random() < 0.5 else [v + 0.05 * i * i for i, v in enumerate(c["s"])]
        elif x < 0.28 and c["cfg"].get("extrema_detection") != "parabol":
            c["dt"] = rng.choice(["i1", "i2", "i4", "i8", "u1"])
            c["s"] = [float(int(v * 3) % 100) for v in c["s"]]
        elif x < 0.33:
            c["s"] = [v * math.exp(0.2 * min(i, 100)) for i, v in enumerate(c["s"])]
        if rng.random() < 0.15:
            c["lay"] = rng.randint(1, 3)
        yield c


def run(case):
    from PyEMD import EMD
    S = layout(np.array(case["s"]).astype(case["dt"]), case.get("lay", 0))
    T = None if case["t"] is None else np.array(case["t"])
    if case["cfg"].get("extrema_detection") == "parabol" and np.any(np.diff(S) == 0):
        return []
    e = EMD(**case["cfg"])
    S0 = S.copy()
    out = e.emd(S, T, case["max_imf"])
    imfs, rest = e.get_imfs_and_residue()
    Sf = S0.astype(float)
    n = len(S)
    shape = bool(np.ndim(out) == 2 and out.shape[1] == n and imfs.ndim == 2 and imfs.shape[1] == n and np.shape(rest) == (n,) and out.shape[0] in (len(imfs), len(imfs) + 1))
    rec = {"kind": "ledger", "shape": shape, "finite": bool(np.all(np.isfinite(out)) and np.all(np.isfinite(imfs)) and np.all(np.isfinite(rest)))}
    if not (shape and rec["finite"]):
        return [rec]
    M = max([float(np.max(np.abs(x))) for x in (Sf, out, imfs, rest) if np.size(x)] + [1e-300])
    z = float(np.max(np.abs(rest)))
    rec.update(s=limbs(Sf, M), rows=[limbs(x, M) for x in imfs] + [limbs(rest, M)], nmodes=len(imfs), total=int(out.shape[0]),
               zero="y" if z < 0.999e-8 else "n" if z > 1.001e-8 else "e", samemodes=bool(np.array_equal(out[:len(imfs)], imfs)),
               samerest=bool(out.shape[0] == len(imfs) or np.array_equal(out[-1], rest)), slack=int(min(2 ** 27, 1.1e-8 / M * 2 ** 50 + 1)), tiny=M < 1e-6)
    return [rec]


def stats(recs):
    r = [x for x in recs if x["kind"] == "ledger" and "rows" in x]
    return {"modes": sum(x["nmodes"] for x in r), "samples": sum(len(x["s"]) for x in r), "without_remainder": sum(x["total"] == x["nmodes"] for x in r), "max_modes": max([x["nmodes"] for x in r] or [0])}
