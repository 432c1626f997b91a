"""C11: CEEMDAN as a whole."""
import copy
import numpy as np
from vp.core import generate, q
from vp.c01 import limbs
from vp.c12 import Linear, smooth
from vp.sig import rand_signal, rand_time
from vp.siftobs import cmp3

PROP, TRACE = "C11", "CeemdanRunTrace"
MODELS = [("CeemdanMC", "CeemdanMC.cfg", ("quick", "thorough")), ("CeemdanMC", "CeemdanMC0.cfg", ("quick", "thorough"))]
ASSUMPTIONS = ["rounding allowance 1.5e-11 of the largest magnitude for completeness", "stopping decisions within 1e-6 of a threshold, or changing under a relative disturbance of 1e-13, are accepted both ways",
               "parallel against sequential: exact trial decomposition stand-in, or two trials (where the order of summation cannot matter)"]


class Ending(Linear):
    """linear stand-in that declares a series free of further modes once its range is small"""

    def __init__(self, maxm, at):
        Linear.__init__(self, maxm)
        self.at = at

    def emd(self, S, T=None, max_imf=-1):
        if max_imf == 1 and np.ptp(S) < self.at:
            return np.array([np.asarray(S, dtype=float)])
        return Linear.emd(self, S, T, max_imf)

    __call__ = emd


def gen(tier, rng):
    big = tier == "thorough"
    kinds = ["gauss", "ints", "sines", "walk", "plateau", "trend", "spiky", "am"]
    for _ in range(4000 if big else 700):
        n = rng.choice([2, 3, 5, 8, 15, 30, 30, 60, 90])
        s = rand_signal(rng, n)
        x = rng.random()
        dt = "d"
        if x < 0.1:
            s = [v * rng.choice([1e-9, 1e-4, 1e6]) for v in s]
        elif x < 0.17:
            s = [v + rng.choice([1e3, -1e6]) for v in s]
        elif x < 0.22:
            s = [rng.choice([0.0, 0.1, -3.7, 5e8])] * n
        elif x < 0.3:
            s, dt = [float(int(v * 5)) for v in s], rng.choice(["i8", "i4", "i2"])
        yield {"k": "run", "s": s, "dt": dt, "t": None if rng.random() < 0.6 else rand_time(rng, n), "limit": rng.choice([-1, -1, -1, 1, 2, 3, 5]), "trials": rng.choice([1, 2, 3, 5]),
               "kw": {"epsilon": rng.choice([0.005, 0.005, 0.1, 1.0, 0.0]), "noise_scale": rng.choice([1.0, 1.0, 0.1, 5.0, 0.0]), "noise_kind": rng.choice(["normal", "uniform"]), "beta_progress": rng.random() < 0.7,
                      **({"range_thr": rng.choice([0.3, 1.0, 2.0])} if rng.random() < 0.25 else {}), **({"total_power_thr": rng.choice([1.0, 5.0, 20.0])} if rng.random() < 0.25 else {})},
               "seed": rng.randrange(10 ** 6), "progress": rng.random() < 0.1, "p": rng.choice([0] * 12 + [1, 3])}
    for _ in range(4000 if big else 800):
        n = rng.choice([6, 10, 20])
        yield {"k": "stub", "s": rand_signal(rng, n, rng.choice(kinds)), "f": rng.choice([1, 1, 0.01, 300.0]), "limit": rng.choice([-1, -1, -1, 2, 4, 9]), "trials": rng.choice([1, 2, 4]), "seed": rng.randrange(10 ** 6),
               "at": rng.choice([0.0, 0.0, 0.5, 1.2]), "kw": {"epsilon": rng.choice([0.005, 0.2]), "range_thr": rng.choice([0.01, 0.3, 0.8]), "total_power_thr": rng.choice([0.05, 1.0, 5.0])}, "hard": rng.choice([100, 100, 3])}
    for _ in range(3000 if big else 600):
        n = rng.choice([6, 20])
        yield {"k": "end", "s": rand_signal(rng, n, rng.choice(["gauss", "sines", "walk"])), "m": rng.randint(1, 4), "limit": rng.choice([-1, 0, 1, 2, 3, 4, 5]), "rest": rng.choice([1e-3, 0.02, 0.2, 1.0]), "flat": rng.random() < 0.2,
               "thr": [rng.choice([0.01, 0.3]), rng.choice([0.05, 1.0])], "seed": rng.randrange(10 ** 6)}
    for h in generate("NoiseGen", {"Seeds": "{1, 2}", "Procs": "{0, 2}", "Ns": "{2}", "Depth": 3 if not big else 4}, ("NoReuse", "Repro", "Emit")):
        yield {"k": "hist", "h": h}
    for h in generate("NoiseGen", {"Seeds": "{1, 2, 3}", "Procs": "{0, 1, 2, 3, 5}", "Ns": "{1, 2, 5}", "Depth": 6}, ("Emit",), simulate=(800 if big else 120, 6), seed=rng.randrange(10 ** 6)):
        yield {"k": "hist", "h": h}
    for _ in range(600 if big else 120):
        yield {"k": "same", "s": rand_signal(rng, rng.choice([30, 50]), rng.choice(["gauss", "sines", "walk", "am"])), "p": rng.choice([0, 1, 2, 4]), "seed": rng.randrange(10 ** 6), "c": 2.0 ** rng.choice([-20, -3, 0, 1, 5, 12]),
               "real": rng.random() < 0.7, "cg": rng.choice([0.3, 7.0, 1e-4]), "limit": rng.choice([-1, 3]), "kw": {"noise_kind": rng.choice(["normal", "uniform"]), "epsilon": rng.choice([0.005, 0.2]), "beta_progress": rng.random() < 0.7}}


def left(R, ask, thr, amp):
    outs = {int(ask(x)) for x in (R, R * (1 + 1e-13), R + 1e-13 * amp * np.cos(7.3 * np.arange(len(R))))}
    return {"one": "e" if len(outs) > 1 and 1 in outs else "y" if outs == {1} else "n",
            "rg": cmp3(float(np.ptp(R)), thr[0], amp * 1e-7), "pw": cmp3(float(np.sum(np.abs(R))), thr[1], amp * 1e-7)}


def runrec(S, out, limit, ask, thr, hard):
    n = len(S)
    shape = bool(np.ndim(out) == 2 and out.shape[1] == n and out.shape[0] >= 1)
    rec = {"kind": "run", "shape": shape, "finite": bool(np.all(np.isfinite(out)))}
    if not (shape and rec["finite"]):
        return rec
    Sf = S.astype(float)
    sc = float(np.std(Sf)) or 1.0
    M = max(float(np.max(np.abs(Sf))), float(np.max(np.abs(out))), 1e-300)
    amp = M / sc
    lefts = [left((Sf - np.sum(out[:j], axis=0)) / sc, ask, thr, amp) for j in range(1, len(out))]
    rec.update(s=limbs(Sf, M), rows=[limbs(x, M) for x in out], limit=limit, left=lefts, hard=hard)
    return rec


def cee(kw, **more):
    from PyEMD import CEEMDAN
    o = CEEMDAN(**{"parallel": False, **kw, **more})
    return o


def run(case):
    from PyEMD import EMD
    k = case["k"]
    if k == "run":
        S = np.array(case["s"]).astype(case["dt"])
        T = None if case["t"] is None else np.array(case["t"])
        p = case["p"]
        kw = dict(case["kw"])
        o = cee(kw, trials=case["trials"], parallel=p > 0, processes=p or None)
        o.noise_seed(case["seed"])
        S0 = S.copy()
        if case["progress"]:
            import contextlib, io
            with contextlib.redirect_stderr(io.StringIO()):
                out = o(S, T, case["limit"], progress=True)
        else:
            out = o(S, T, case["limit"])
        ekw = {x: kw[x] for x in ("range_thr", "total_power_thr") if x in kw}
        e = EMD(**ekw)
        thr = (kw.get("range_thr", 0.01), kw.get("total_power_thr", 0.05))
        return [runrec(S0, out, case["limit"], lambda x: e.emd(x, None, 1).shape[0], thr, 100)]
    if k == "stub":
        S = np.array(case["s"]) * case["f"]
        if np.std(S) < 1e-9 * np.max(np.abs(S) + 1e-300):
            return []
        o = cee(case["kw"], trials=case["trials"], ext_EMD=Ending(3, case["at"]), seed=case["seed"], max_imf=case["hard"])
        out = o.ceemdan(S, None, case["limit"])
        if len(out) > 100:
            return []
        at = case["at"]

        def ask(x):
            # within 1e-7 of the stand-in's own decision the answer is open: left() sees it through the disturbance
            return 1 if np.ptp(x) < at else 2
        r = runrec(S, out, case["limit"], ask, (case["kw"]["range_thr"], case["kw"]["total_power_thr"]), case["hard"])
        return [r]
    if k == "end":
        r = np.random.RandomState(case["seed"])
        S = np.array(case["s"])
        n = len(S)
        rest = r.normal(size=n) * case["rest"] if not case["flat"] else np.linspace(-1, 1, n) * case["rest"]
        c = r.normal(size=(case["m"], n))
        c[-1] = S - rest - np.sum(c[:-1], axis=0)
        o = cee({"range_thr": case["thr"][0], "total_power_thr": case["thr"][1]}, trials=2)
        e = EMD(range_thr=case["thr"][0], total_power_thr=case["thr"][1])
        said = o.end_condition(S, c, case["limit"])
        return [{"kind": "end", "limit": case["limit"], "modes": case["m"], "said": bool(said),
                 "left": left(S - np.sum(c, axis=0), lambda x: e.emd(x, None, 1).shape[0], case["thr"], 1.0)}]
    if k == "hist":
        S = np.arange(14) % 5 * 1.0
        o = cee({}, ext_EMD=Linear(3), epsilon=0.4)
        seen, ids = [], []
        for a in case["h"]:
            i = 0
            if a["op"] == "seed":
                o.noise_seed(a["k"])
            elif a["op"] == "kind":
                o.noise_kind = a["v"]
            elif a["op"] == "copy":
                o = copy.deepcopy(o)
            else:
                o.trials, o.parallel, o.processes = a["n"], a["p"] > 0, a["p"] or None
                x = o.ceemdan(S, None, 3)
                for i, y in enumerate(seen):
                    if x.shape == y.shape and np.max(np.abs(x - y)) < 1e-9:
                        break
                else:
                    i = len(seen)
                    seen.append(x)
            ids.append(i)
        return [{"kind": "hist", "h": case["h"], "ids": ids}]
    S = np.array(case["s"])
    out = []
    real = case["real"]

    def one(S, p=0, how="seed"):
        o = cee(case["kw"], trials=2 if real else 5, parallel=p > 0, processes=p or None, ext_EMD=None if real else Linear(4), **({"seed": case["seed"]} if how == "kw" else {}))
        if how == "seed":
            o.noise_seed(case["seed"])
        elif how == "later":
            o.ceemdan(S[:20], None, 2)
            o.noise_seed(case["seed"])
        return o.ceemdan(S, None, case["limit"])
    ref = one(S)

    def cmpr(x, c, why):
        rows = x.shape == ref.shape
        return {"kind": "same", "rows": bool(rows), "diff": q(float(np.max(np.abs(x / c - ref))) / float(np.max(np.abs(ref))), 1e9) if rows else 0, "why": why}
    out.append(cmpr(one(S, how="kw"), 1, "seed-argument"))
    out.append(cmpr(one(S, how="later"), 1, "reseeded"))
    out.append(cmpr(one(S * case["c"]), case["c"], "scaled"))
    if case["p"]:
        out.append(cmpr(one(S, case["p"]), 1, "parallel"))
    if not real:
        # the number of stages may hinge on a threshold: compare with a limit only
        if case["limit"] > 0:
            out.append(cmpr(one(S * case["cg"]), case["cg"], "scaled"))
    return out


def stats(recs):
    r = [x for x in recs if x["kind"] == "run" and "rows" in x]
    return {"modes": sum(len(x["rows"]) - 1 for x in r), "ended_by_limit": sum(0 < x["limit"] == len(x["rows"]) - 1 for x in r), "open_decisions": sum(d["one"] == "e" or not d["rg"] or not d["pw"] for x in r for d in x["left"]),
            "ended_by_threshold": sum(-1 in (x["left"][-1]["rg"], x["left"][-1]["pw"]) for x in r if x["left"])}
