"""C02: each mode is the result of the configured sifting rule."""
import numpy as np
from vp import siftobs

PROP, TRACE = "C02", "SiftTrace"
MODELS = [("EmdMC", "EmdMC_%s.cfg" % r, ("quick",)) for r in ("fixe", "fixeh", "default")] + [("EmdMC", "EmdMC_%s_deep.cfg" % r, ("thorough",)) for r in ("fixe", "fixeh", "default")]
ASSUMPTIONS = ["runs whose outcome changes when the signal is scaled by 1 +- 1e-12 are left out; comparisons within 1e-6 of a threshold may go either way",
               "extrema and envelopes along the trajectory come from the public building blocks (decided by C04-C07)"]


def gen(tier, rng):
    big = tier == "thorough"
    for _ in range(12000 if big else 3500):
        yield siftobs.rand_case(rng)
    for _ in range(8000 if big else 3500):
        yield crit_case(rng)


def crit_case(rng):
    n = rng.choice([3, 5, 8])
    old = [rng.randint(-8, 8) / 4 for _ in range(n)]
    sc = rng.choice([1, 1, 1e-6, 0.01, 30])
    mul = rng.choice([0, 0.01, 0.05, 0.2, 0.4, 1])
    new = [o * (1 + mul * rng.choice([0, 1, -1]) * rng.random()) + rng.choice([0, 0, mul]) for o in old]
    lo = [-rng.randint(0, 3) if rng.random() < 0.9 else 1 for _ in range(3)]
    hi = [rng.randint(0, 3) if rng.random() < 0.9 else -1 for _ in range(3)]
    thr = {k: rng.choice(v) for k, v in (("energy_ratio_thr", [0.2, 0.002, 0.0]), ("std_thr", [0.2, 0.01, 0.0]), ("svar_thr", [0.001, 0.3, 0.0]))}
    return {"k": "crit", "old": [x * sc for x in old], "new": [x * sc for x in new], "hi": hi, "lo": lo, "cfg": thr}


def run(case):
    if case["k"] == "run":
        r = siftobs.run_emd(case)
        return [r] if r else []
    e, given = siftobs.asked(siftobs.build({}), case["cfg"]), siftobs.build(case["cfg"])
    new, old = np.array(case["new"], float), np.array(case["old"], float)
    eM, em = np.array([[0, 1, 2], case["hi"]], float), np.array([[0, 1, 2], case["lo"]], float)
    c = siftobs.crit(e, new, old, eM, em)
    c["hi"], c["lo"] = (-1 if min(case["hi"]) < 0 else 1), (-1 if max(case["lo"]) > 0 else 1)  # exact here: small integers
    with np.errstate(all="ignore"):
        return [{"kind": "crit", "c": c, "got": bool(given.check_imf(new, old, eM, em))}]


def stats(recs):
    r = [x for x in recs if x["kind"] == "run"]
    return {"runs": len(r), "modes": sum(len(x["modes"]) for x in r), "rounds": sum(len(m["rounds"]) for x in r for m in x["modes"]),
            "by_rule": {k: sum(x["rule"] == k for x in r) for k in ("fixe", "fixeh", "default")},
            "criterion_true": sum(1 for x in recs if x["kind"] == "crit" and x["got"])}
