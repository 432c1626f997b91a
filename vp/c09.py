"""C09: EEMD aggregation."""
import contextlib
import io
import numpy as np
from vp.core import q
from vp.stub import Rows

PROP, TRACE = "C09", "EnsembleTrace"
MODELS = [("EnsembleMC", "EnsembleMC.cfg", ("quick", "thorough")), ("EnsembleMC", "EnsembleMC4.cfg", ("thorough",))]
ASSUMPTIONS = ["trial decomposition replaced through ext_EMD by one with small integer components (and by the real one for a subset)"]
Q = 64


def gen(tier, rng):
    big = tier == "thorough"
    for _ in range(3000 if big else 500):
        yield case(rng, par=0)
    for _ in range(400 if big else 60):
        yield case(rng, par=rng.choice([1, 2, 3, 4]))
    for _ in range(300 if big else 40):
        c = case(rng, par=0)
        c["real"] = True
        yield c
    yield {"k": "opt", "asked": {}, "opts": {}, "seed": 5, "sep": False}
    for _ in range(100 if big else 24):
        yield {"k": "opt", "asked": {x: v for x, v in (("trials", rng.randint(1, 4)), ("noise_width", rng.choice([0.3, 1.0]))) if rng.random() < 0.6 or x == "trials"},
               "opts": options(rng), "seed": rng.randrange(10 ** 6), "sep": rng.random() < 0.4}


def options(rng):
    """of the plain decomposition"""
    o = {}
    for x, v in (("spline_kind", ["akima", "pchip", "linear"]), ("nbsym", [1, 3]), ("FIXE", [2, 4]), ("FIXE_H", [2, 3]), ("MAX_ITERATION", [3, 6]), ("extrema_detection", ["parabol"]),
                 ("range_thr", [1.0, 3.0]), ("total_power_thr", [5.0, 20.0]), ("std_thr", [0.01]), ("svar_thr", [1e-6, 0.1]), ("energy_ratio_thr", [0.005])):
        if rng.random() < 0.2:
            o[x] = rng.choice(v)
    if rng.random() < 0.4 and not o:
        o = {"FIXE": 3}
    return o


def case(rng, par):
    n = rng.choice([3, 5, 6])
    return {"n": n, "s": [rng.randint(-9, 9) for _ in range(n)], "trials": rng.randint(1, 6) if rng.random() < 0.85 else rng.randint(12, 40), "sep": rng.random() < 0.4, "par": par, "few": rng.random() < 0.2,
            "max_imf": rng.choice([-1, -1, 1, 2]), "t": rng.random() < 0.4, "seed": rng.randrange(10 ** 6), "prog": rng.random() < 0.3, "calls": rng.choice([1, 1, 2]), "real": False,
            "order": rng.random() < 0.5}


def execute(case, par, stub):
    from PyEMD import EEMD
    S = np.array(case["s"], dtype=float)
    if case["n"] and np.ptp(S) == 0:
        S[0] += 3
    stub.sig = S.copy()
    kw = {"processes": par} if par else {}
    e = EEMD(trials=case["trials"], ext_EMD=stub, parallel=bool(par), separate_trends=case["sep"], noise_width=0.4, **kw)
    e.noise_seed(case["seed"])
    T = np.arange(case["n"]) * 2.0 + 1 if case["t"] else None
    for _ in range(case["calls"]):
        del stub.calls[:]
        with contextlib.redirect_stderr(io.StringIO()):
            ret = e.eemd(S, T, max_imf=case["max_imf"], progress=case["prog"])
    return e, S, T, ret


def ints(rows):
    return [[int(round(float(v))) for v in r] for r in rows]


class Listen:
    def __init__(self):
        self.seen = []

    def emd(self, S, T=None, max_imf=-1):
        self.seen.append(np.array(S, dtype=float))
        return self.seen[-1][None, :].copy()

    def get_imfs_and_trend(self):
        return self.seen[-1][None, :][:0].copy(), self.seen[-1].copy()


def chosen(case):
    from PyEMD import EEMD, EMD
    st = Listen()
    S = 3.0 * (np.arange(300) % 7)
    o = EEMD(ext_EMD=st, parallel=False, **case["asked"])
    o.noise_seed(case["seed"])
    o(S)
    w = float(np.std(np.array(st.seen) - S)) / 18.0 if st.seen else 0
    S = np.random.RandomState(case["seed"]).normal(0, 1, 40) + np.sin(np.arange(40))
    r = []
    for kw in (case["opts"], {"ext_EMD": EMD(**case["opts"])}):
        o = EEMD(parallel=False, trials=case["asked"].get("trials", 3), separate_trends=case["sep"], **kw)
        o.noise_seed(case["seed"])
        r.append(np.array(o(S)))
    same = r[0].shape == r[1].shape and np.allclose(r[0], r[1], rtol=0, atol=1e-9 * (1 + np.max(np.abs(r[1]))))
    return [{"kind": "options", "trials": case["asked"].get("trials", -1), "width": q(case["asked"].get("noise_width", -0.001), 1000), "had": len(st.seen), "noise": q(w, 1e5), "same": bool(same)}]


def run(case):
    if case.get("k") == "opt":
        return chosen(case)
    if case["real"]:
        return real(case)
    ref = Rows([], 0, maxm=4, few=case["few"])
    e, S, T, ret = execute(case, 0, ref)
    calls = list(ref.calls)
    n = case["n"]
    tt = np.arange(n) if T is None else T
    args = len(calls) == case["trials"] and all(c[1] is not None and np.array_equal(c[1], tt) and c[2] == case["max_imf"] for c in calls)
    if case["par"]:
        e, S, T, ret = execute(case, case["par"], Rows([], 0.01 if case["order"] else 0, maxm=4, few=case["few"]))
    trials = [{"m": ints(c[3][:-1]) if case["sep"] else ints(c[3]), "tr": [ints(c[3])[-1]] if case["sep"] else []} for c in calls]
    return [record(e, S, ret, trials, args)]


def record(e, S, ret, trials, args):
    ai = e.all_imfs
    keys = sorted(ai.keys()) == list(range(len(ai)))
    got = [ints(ai[k]) if np.allclose(ai[k], np.round(ai[k])) else [[99999]] for k in sorted(ai.keys())]
    m, rest = e.get_imfs_and_residue()
    F = lambda a: [[q(float(v), Q) for v in r] for r in np.atleast_2d(a)]
    return {"kind": "ens", "s": [int(v) for v in S], "trials": trials, "got": got, "keys": bool(keys and list(ai.keys()) == list(range(len(ai)))), "count": [int(c) for c in e.ensemble_count()],
            "ret": F(ret), "mean": F(e.ensemble_mean()), "std": F(e.ensemble_std()), "stdok": len(trials) * max([abs(v) for g in got for r in g for v in r] + [1]) <= 700, "rest": F(rest)[0], "acc": bool(np.array_equal(m, ret)), "args": bool(args)}


class RealRounded:
    """the real EMD, its components rounded to integers so that the ledger stays exact"""

    def __init__(self):
        from PyEMD import EMD
        self.e = EMD()
        self.calls = []

    def emd(self, S, T=None, max_imf=-1):
        S = np.round(S)
        r = np.round(self.e.emd(S, T, max_imf))
        self.last = r
        self.calls.append((None, None if T is None else np.array(T), max_imf, r))
        return r.copy()

    def get_imfs_and_trend(self):
        return self.last[:-1].copy(), self.last[-1].copy()


def real(case):
    import random
    rng = random.Random(case["seed"])
    case = dict(case, s=[rng.randint(-9, 9) for _ in range(14)], n=14)
    st = RealRounded()
    e, S, T, ret = execute(case, 0, st)
    tt = np.arange(14) if T is None else T
    args = len(st.calls) == case["trials"] and all(np.array_equal(c[1], tt) and c[2] == case["max_imf"] for c in st.calls)
    if any(np.max(np.abs(c[3])) > 60 for c in st.calls if c[3].size) or any(len(c[3]) == 0 for c in st.calls):
        return []
    trials = [{"m": ints(c[3][:-1]) if case["sep"] else ints(c[3]), "tr": [ints(c[3])[-1]] if case["sep"] else []} for c in st.calls]
    return [record(e, S, ret, trials, args)]


def stats(recs):
    r = [x for x in recs if x["kind"] == "ens"]
    return {"uneven_orders": sum(len(set(x["count"])) > 1 for x in r), "with_trends": sum(bool(x["trials"][0]["tr"]) for x in r)}
