"""C12: CEEMDAN stages."""
import numpy as np
from vp.core import q
from vp.c09 import options

PROP, TRACE = "C12", "CeemdanTrace"
MODELS = [("CeemdanMC", "CeemdanMC.cfg", ("quick", "thorough")), ("CeemdanMC", "CeemdanMC0.cfg", ("quick", "thorough"))]
ASSUMPTIONS = ["trial decomposition replaced through ext_EMD by a linear one, which makes the share of every noise mode visible in the components",
               "stage arithmetic to about 0.2 % of the remainder's largest value"]


def smooth(x):
    return (np.roll(x, 1) + 2 * x + np.roll(x, -1)) / 4


class Linear:
    """unlimited: integer 'noise modes' identifying the input; limited: [x - Px, Px]"""

    def __init__(self, maxm):
        self.maxm, self.noise, self.timed, self.other = maxm, [], 0, 0

    def emd(self, S, T=None, max_imf=-1):
        S = np.asarray(S, dtype=float)
        if max_imf is None or max_imf < 0:
            h = np.random.RandomState(int(abs(S[0]) * 1e6) % 2 ** 31)
            m = h.randint(1, self.maxm + 1)
            rows = h.randint(-3, 4, size=(m, len(S))).astype(float)
            rows[0][:2] = [3, -3]
            self.noise.append((S.copy(), rows.copy()))
            return rows
        if T is not None:
            self.timed += bool(len(T) == len(S) and T[0] == 5.0)
        else:
            self.other += 1
        p = smooth(S)
        return np.array([S - p, p])

    __call__ = emd


def gen(tier, rng):
    big = tier == "thorough"
    for _ in range(8000 if big else 1500):
        n = rng.choice([5, 6, 8])
        yield {"k": "stages", "s": [rng.randint(-6, 6) for _ in range(n)], "f": rng.choice([1, 1, 0.01, 250.0]), "trials": rng.choice([1, 2, 3, 4, 7]), "en": rng.choice([1, 4, 8, 16]),
               "maxm": rng.choice([1, 2, 4, 6]), "beta": rng.random() < 0.5, "limit": rng.choice([2, 3, 4, 5]), "seed": rng.randrange(10 ** 6),
               "kind": rng.choice(["normal", "uniform"]), "calls": rng.choice([1, 1, 2]), "entry": rng.random() < 0.5}
    yield {"k": "opt", "asked": {}, "opts": {}, "seed": 5}
    for _ in range(60 if big else 16):
        full = {"trials": rng.randint(1, 4), "epsilon": rng.choice([0.05, 0.5]), "noise_scale": rng.choice([0.3, 4.0]), "beta_progress": False, "noise_kind": "uniform",
                "range_thr": rng.choice([0.2, 1.0]), "total_power_thr": rng.choice([0.5, 5.0])}
        yield {"k": "opt", "asked": {x: v for x, v in full.items() if x == "trials" or rng.random() < 0.3}, "opts": options(rng), "seed": rng.randrange(10 ** 6)}
    for _ in range(200 if big else 40):
        yield {"k": "amp", "kind": rng.choice(["normal", "uniform"]), "scale": rng.choice([1.0, 0.2, 5.0]), "seed": rng.randrange(10 ** 6), "f": rng.choice([1, 50.0])}


# documented
DEFAULT = {"trials": 100, "epsilon": 0.005, "noise_scale": 1.0, "beta_progress": True, "noise_kind": "normal", "range_thr": 0.01, "total_power_thr": 0.05}


def chosen(case):
    """what is left out is the documented default, what is given to the plain decomposition reaches it"""
    from PyEMD import CEEMDAN, EMD
    opts = {k: v for k, v in case["opts"].items() if k not in ("range_thr", "total_power_thr")}
    S = np.random.RandomState(case["seed"]).normal(0, 1, 40) + np.sin(np.arange(40))
    thr = {k: v for k, v in case["asked"].items() if k in ("range_thr", "total_power_thr")}
    st = Linear(3)
    CEEMDAN(ext_EMD=st, parallel=False, seed=case["seed"], **case["asked"])(S, max_imf=1)
    r = [CEEMDAN(parallel=False, seed=case["seed"], **case["asked"], **opts)(S),
         CEEMDAN(parallel=False, seed=case["seed"], **{**DEFAULT, **case["asked"]}, ext_EMD=EMD(**opts, **thr))(S)]
    same = r[0].shape == r[1].shape and np.allclose(r[0], r[1], rtol=0, atol=1e-9 * (1 + np.max(np.abs(r[1]))))
    return [{"kind": "options", "trials": case["asked"].get("trials", -1), "had": len(st.noise), "same": bool(same)}]


def run(case):
    from PyEMD import CEEMDAN
    if case["k"] == "opt":
        return chosen(case)
    if case["k"] == "amp":
        st = Linear(3)
        o = CEEMDAN(trials=12, ext_EMD=st, parallel=False, noise_kind=case["kind"], noise_scale=case["scale"], seed=case["seed"])
        S = np.arange(400) % 7 * case["f"]
        o.ceemdan(S, max_imf=2)
        z = np.array([a for a, _ in st.noise]).ravel() / case["scale"]
        a = 1 if case["kind"] == "normal" else 0.25
        return [{"kind": "amp", "k": case["kind"], "std": q(float(np.std(z)), 1000), "mean": q(float(np.mean(z)), 1000), "width": q(float(np.ptp(z)), 1000), "lo": q(float(z.min()), 1000),
                 "hi": q(float(z.max()), 1000), "in1": q(float(np.mean(np.abs(z) < a)), 1000)}]
    S = np.array(case["s"], dtype=float)
    if np.ptp(S) == 0:
        S[0] += 2
    S = S * case["f"]
    n = len(S)
    T = np.arange(n) * 0.5 + 5
    st = Linear(case["maxm"])
    o = CEEMDAN(trials=case["trials"], epsilon=case["en"] / 16, ext_EMD=st, parallel=False, beta_progress=case["beta"], noise_kind=case["kind"], seed=case["seed"], range_thr=1e-9, total_power_thr=1e-9)
    prev = []
    for _ in range(case["calls"]):
        prev += [a for a, _ in st.noise]
        st.noise, st.timed = [], 0
        out = o(S, T, case["limit"]) if case["entry"] else o.ceemdan(S, T, max_imf=case["limit"])
    zs = [a for a, _ in st.noise]
    fresh = all(len(a) == n for a in zs) and len({a.tobytes() for a in zs + prev}) == len(zs + prev)
    # an undefined normalisation cannot be expected here: first modes always vary
    recs = []
    K = len(out) - 1
    stages = []
    for k in range(K):
        x = S - np.sum(out[:k], axis=0)
        y = S - np.sum(out[:k + 1], axis=0)
        M = float(np.max(np.abs(x)))
        if M < 1e-6 * np.max(np.abs(S)) or np.std(x) < 0.02 * M:
            break
        if np.max(np.abs(y)) > 40 * M:
            return [{"kind": "blown-up"}]
        stages.append({"x": [q(v, 1024 / M) for v in x], "y": [q(v, 16384 / M) for v in y]})
    return recs + [{"kind": "stages", "noise": [[[int(v) for v in r] for r in rows] for _, rows in st.noise], "noises": len(st.noise), "trials": case["trials"], "en": case["en"],
                    "beta": case["beta"], "st": stages, "fresh": bool(fresh), "timed": st.timed >= case["trials"] * K}]


def stats(recs):
    r = [x for x in recs if x["kind"] == "stages"]
    return {"stages": sum(len(x["st"]) for x in r), "trials_without_a_mode": sum(1 for x in r for k in range(len(x["st"])) for z in x["noise"] if len(z) <= k)}
