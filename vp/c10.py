"""C10: noise of EEMD trials."""
import copy
import numpy as np
from vp.core import generate, q
from vp.sig import rand_signal

PROP, TRACE = "C10", "NoiseTrace"
MODELS = [("EnsembleMC", "EnsembleMC.cfg", ("quick", "thorough")), ("EnsembleMC", "EnsembleMC4.cfg", ("thorough",))]
ASSUMPTIONS = ["distribution checked by sample statistics of 4000 or more draws (6 sigma bounds)", "noise seen through a pass-through trial decomposition"]


class Pass:
    """one component: what the trial was given"""

    def emd(self, S, T=None, max_imf=-1):
        self.last = np.array([np.array(S, dtype=float)])
        return self.last.copy()

    def get_imfs_and_trend(self):
        return self.last[:0].copy(), self.last[0].copy()


def gen(tier, rng):
    big = tier == "thorough"
    for h in generate("NoiseGen", {"Seeds": "{1, 2}", "Procs": "{0, 2}", "Ns": "{3}", "Depth": 4 if not big else 5}, ("NoReuse", "Repro", "Emit")):
        yield {"k": "stream", "h": h, "w": 0.3, "n": 40}
    for h in generate("NoiseGen", {"Seeds": "{1, 2, 3}", "Procs": "{0, 1, 2, 3, 5}", "Ns": "{1, 2, 5, 17}", "Depth": 8}, ("Emit",), simulate=(2000 if big else 300, 8), seed=rng.randrange(10 ** 6)):
        yield {"k": "stream", "h": h, "w": rng.choice([0.05, 0.3, 2.0]), "n": rng.choice([40, 100])}
    for _ in range(300 if big else 60):
        yield {"k": "amp", "kind": rng.choice(["normal", "uniform"]), "w": rng.choice([0.05, 0.2, 1.0, 3.0]), "seed": rng.randrange(10 ** 6), "par": rng.choice([0, 0, 0, 2]),
               "range": rng.choice([0.5, 1, 4, 100]), "off": rng.choice([0, 5, -30]), "roll": rng.choice([0, 3, 4]), "spike": rng.random() < 0.4, "sep": rng.random() < .3, "dt": rng.choice(["d", "d", "f", "e", "i1", "i2", "u1", "i8"])}
    for kind in ("normal", "uniform"):
        for size in (1, 7, [3, 5]):
            for scale in (0.0, 1.0, 2.5):
                yield {"k": "gen", "kind": kind, "size": size, "scale": scale}
    for _ in range(200 if big else 40):
        yield {"k": "zero", "s": rand_signal(rng, rng.choice([20, 40]), rng.choice(["gauss", "sines", "walk"])), "trials": rng.randint(1, 4), "kind": rng.choice(["normal", "uniform"]),
               "max_imf": rng.choice([-1, 1, 2])}
    for _ in range(120 if big else 24):
        yield {"k": "par", "s": rand_signal(rng, 40, rng.choice(["gauss", "sines", "walk"])), "trials": rng.choice([2, 5, 9]), "seed": rng.randrange(10 ** 6), "p": rng.choice([1, 2, 3, 5]),
               "kind": rng.choice(["normal", "uniform"]), "sep": rng.random() < 0.3}


def ramp(n, rg, off):
    return off + rg * (np.arange(n) % 7) / 6.0


def run(case):
    from PyEMD import EEMD, EMD
    k = case["k"]
    if k == "stream":
        n = case["n"]
        S = ramp(n, 2.0, 1.0)
        o = EEMD(trials=3, noise_width=case["w"], ext_EMD=Pass(), parallel=False)
        sc = case["w"] * 2.0
        series = []
        for a in case["h"]:
            if a["op"] == "seed":
                o.noise_seed(a["k"])
            elif a["op"] == "kind":
                o.noise_kind = a["v"]
            elif a["op"] == "copy":
                o = copy.deepcopy(o)
            else:
                o.trials, o.parallel, o.processes = a["n"], a["p"] > 0, a["p"] or None
                o.eemd(S)
                series += [(x - S) / sc for x in o.all_imfs[0]]
        ids, seen = [], []
        for x in series:
            for i, y in enumerate(seen):
                if np.max(np.abs(x - y)) < 1e-9:
                    ids.append(i)
                    break
            else:
                ids.append(len(seen))
                seen.append(x)
        corr = 0
        if len(seen) > 1 and n >= 100:
            c = np.corrcoef(np.array(seen))
            corr = float(np.max(np.abs(c - np.diag(np.diag(c)))))
            corr = 0 if corr < 0.6 else corr
        elif len(seen) > 1:
            c = np.corrcoef(np.array(seen))
            corr = float(np.max(np.abs(c - np.diag(np.diag(c)))))
            corr = 0 if corr < 0.9 else corr
        return [{"kind": "stream", "h": case["h"], "ids": ids, "corr": q(corr, 1000)}]
    if k == "amp":
        n = 400
        rg, off, dt = case["range"], case["off"], case.get("dt", "d")
        if dt[0] in "iu":
            rg, off = 240, 10 if dt == "u1" else -120
        S = ramp(n, rg, off)
        if case.get("spike"):            # each end of the range is reached once
            S = off + rg * (0.4 + 0.1 * (np.arange(n) % 3))
            S[50], S[170] = off + rg, off
        S = np.roll(S, case.get("roll", 0)).astype(dt)
        rg = float(np.max(S)) - float(np.min(S))
        o = EEMD(trials=12, noise_width=case["w"], ext_EMD=Pass(), parallel=case["par"] > 0, processes=case["par"] or None, noise_kind=case["kind"], separate_trends=case["sep"])
        o.noise_seed(case["seed"])
        o.eemd(S)
        z = (np.array(o.all_imfs[0]) - S.astype(float)).ravel() / (case["w"] * rg)
        a, b = (1, 2) if case["kind"] == "normal" else (0.25, 0.4)
        return [{"kind": "amp", "k": case["kind"], "std": q(float(np.std(z)), 1000), "mean": q(float(np.mean(z)), 1000), "width": q(float(np.ptp(z)), 1000), "lo": q(float(z.min()), 1000),
                 "hi": q(float(z.max()), 1000), "in1": q(float(np.mean(np.abs(z) < a)), 1000), "in2": q(float(np.mean(np.abs(z) < b)), 1000)}]
    if k == "gen":
        o = EEMD(noise_kind=case["kind"], parallel=False)
        size = tuple(case["size"]) if isinstance(case["size"], list) else case["size"]
        x = o.generate_noise(case["scale"], size)
        ok = np.shape(x) == (size if isinstance(size, tuple) else (size,)) and (case["scale"] != 0 or not np.any(x))
        o.noise_kind = "brown"
        try:
            o.generate_noise(1.0, 3)
            rej = False
        except ValueError:
            rej = True
        return [{"kind": "gen", "shape": bool(ok), "rejected": rej}]
    S = np.array(case["s"])
    if k == "zero":
        o = EEMD(trials=case["trials"], noise_width=0, parallel=False, noise_kind=case["kind"])
        r = o.eemd(S, max_imf=case["max_imf"])
        p = EMD().emd(S, max_imf=case["max_imf"])
        same = r.shape == p.shape and np.allclose(r, p, rtol=0, atol=1e-9 * (1 + np.max(np.abs(p)))) and all(
            len(v) == case["trials"] and np.allclose(v, p[i], rtol=0, atol=1e-9 * (1 + np.max(np.abs(p)))) for i, v in o.all_imfs.items())
        return [{"kind": "zero", "same": bool(same)}]
    out = []
    for p in (0, case["p"]):
        o = EEMD(trials=case["trials"], parallel=p > 0, processes=p or None, noise_kind=case["kind"], separate_trends=case["sep"], noise_width=0.1)
        o.noise_seed(case["seed"])
        out.append(o(S))
    rows = out[0].shape == out[1].shape
    return [{"kind": "par", "rows": rows, "diff": q(float(np.max(np.abs(out[0] - out[1]))), 1e9) if rows else 0}]


def stats(recs):
    r = [x for x in recs if x["kind"] == "stream"]
    return {"series": sum(len(x["ids"]) for x in r), "repeated_by_seed": sum(len(x["ids"]) - len(set(x["ids"])) for x in r)}
