"""C03: the decomposition stops exactly when it should."""
import numpy as np
from vp import siftobs

PROP, TRACE = "C03", "StopTrace"
from vp.c02 import MODELS, ASSUMPTIONS  # noqa


def gen(tier, rng):
    big = tier == "thorough"
    for _ in range(12000 if big else 3500):
        c = siftobs.rand_case(rng)
        if rng.random() < 0.4:
            c["cfg"]["range_thr"] = rng.choice([0.001, 0.5, 2.0, 4.0])
            c["cfg"]["total_power_thr"] = rng.choice([0.005, 3.0, 10.0, 40.0])
        yield c
    for _ in range(5000 if big else 800):
        n = rng.choice([3, 6, 10])
        rows = rng.randint(1, 3)
        eps = rng.choice([0, 0.0004, 0.0008, 0.01, 1])
        off = rng.choice([0, 0, 0.0003, 1])
        rest = [eps * rng.uniform(-1, 1) + off for _ in range(n)]
        yield {"k": "end", "rows": [[rng.gauss(0, 1) for _ in range(n)] for _ in range(rows)], "rest": rest,
               "cfg": {"range_thr": rng.choice([0.001, 0.0005, 1.0]), "total_power_thr": rng.choice([0.005, 0.001, 2.0])}}
    # hardly any extrema
    for n in range(2, 7):
        for _ in range(40):
            yield {"k": "run", "s": [float(rng.randint(-2, 2)) for _ in range(n)], "t": None, "cfg": {}, "max_imf": rng.choice([-1, 1, 2])}


def run(case):
    if case["k"] == "run":
        r = siftobs.run_emd(case)
        return [r] if r else []
    e, given = siftobs.asked(siftobs.build({}), case["cfg"]), siftobs.build(case["cfg"])
    rows = np.array(case["rows"])
    S = np.array(case["rest"]) + rows.sum(axis=0)
    return [{"kind": "end", "d": siftobs.ends(e, S - rows.sum(axis=0), 1e-3), "got": bool(given.end_condition(S, rows))}]


def stats(recs):
    r = [x for x in recs if x["kind"] == "run"]
    return {"runs": len(r), "remainder_only": sum(not x["modes"] for x in r), "at_limit": sum(len(x["modes"]) == x["maximf"] for x in r),
            "stopped_by_threshold": sum(1 for x in r if x["modes"] and -1 in x["modes"][-1]["d"].values()),
            "candidate_dropped": sum(1 for x in r if x["cand"]["cur0"] > 2)}
