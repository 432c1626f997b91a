"""C14: white noise significance test."""
import itertools, math
import numpy as np
from vp.core import q

PROP, TRACE = "C14", "WhitenoiseTrace"
MODELS = [("WhitenoiseMC", "WhitenoiseMC.cfg", ("quick",)), ("WhitenoiseMC", "WhitenoiseMC5.cfg", ("thorough",))]
ASSUMPTIONS = ["components have at least one non-zero value", "confidence levels 0.1, 0.3, 0.5, 0.8, 0.9, 0.95, 0.99, 0.999; decisions within 0.005 of the bound (in logarithm) are accepted both ways"]


def comp(rng, n):
    k = rng.choice(["noise", "wave", "flat", "neg", "mono", "sparse"])
    if k == "noise":
        x = [rng.randint(-9, 9) for _ in range(n)]
    elif k == "wave":
        f, a = rng.uniform(0.1, 3), rng.choice([3, 20])
        x = [int(a * math.sin(f * i)) for i in range(n)]
    elif k == "flat":
        x = []
        while len(x) < n:
            x += [rng.randint(-2, 2)] * rng.choice([1, 2, 3])
        x = x[:n]
    elif k == "neg":
        x = [-1 - abs(rng.randint(-6, 6)) + (rng.random() < 0.2) for _ in range(n)]
    elif k == "mono":
        x = [i - n // 3 for i in range(n)]
    else:
        x = [0] * n
        for _ in range(max(1, n // 6)):
            x[rng.randrange(n)] = rng.choice([-3, 1, 5])
    if not any(x):
        x[rng.randrange(n)] = 1
    # exponent that brings the component near the decision
    m = max(1, sum(1 for i in range(1, n - 1) if x[i - 1] < x[i] > x[i + 1]))
    s0 = round(math.log(sum(v * v for v in x) / m, 4))
    return {"x": x, "s": max(0, min(12, s0 + rng.choice([-3, -1, -1, 0, 0, 0, 1, 1, 3])))}


def gen(tier, rng):
    big = tier == "thorough"
    for x in itertools.product((-1, 0, 2), repeat=4):
        if any(x):
            for test in ("apriori", "aposteriori"):
                yield {"k": "check", "c": [{"x": list(x), "s": 0}, {"x": [0, 1, 0, 0], "s": 0}], "test": test, "ref": 2, "alpha": 0.95}
    for n in range(1, 8 if big else 7):
        for x in itertools.product((-1, 0, 1), repeat=n):
            yield {"k": "period", "x": list(x)}
    for _ in range(30000 if big else 6000):
        n = rng.choice([1, 2, 5, 10, 20, 50, 100, 200])
        m = rng.randint(1, 5)
        yield {"k": "check", "c": [comp(rng, n) for _ in range(m)], "test": rng.choice(["apriori", "aposteriori"]), "ref": rng.randint(1, m), "alpha": rng.choice([0.1, 0.3, 0.5, 0.8, 0.9, 0.95, 0.99, 0.999]), "default": rng.random() < 0.2}
    for why in ("empty", "emptyrows", "nan", "nan1", "nanall"):
        yield {"k": "none", "why": why}
    for why in ("list", "tuple", "alpha0", "alpha1", "alphaneg", "alpha15", "alpha2", "alphastr", "alphaint", "test", "testnone", "ref0", "refneg", "refbig", "reffloat"):
        yield {"k": "rej", "why": why}


def run(case):
    from PyEMD.checks import energy, mean_period, whitenoise_check
    k = case["k"]
    if k == "period":
        x = np.array(case["x"], dtype=float)
        return [{"kind": "period", "x": case["x"], "p": q(mean_period(x), 1000), "e": q(float(energy(x)), 1)}]
    if k == "check":
        I = np.array([np.array(c["x"]) * 2.0 ** -c["s"] for c in case["c"]])
        I0 = I.copy()
        ref, al, test = case["ref"], case["alpha"], case["test"]
        if case.get("default"):
            ref, al, test = 1, 0.95, "aposteriori"
            v = whitenoise_check(I)
        else:
            v = whitenoise_check(I, test_name=test, rescaling_imf=ref, alpha=al)
        if not isinstance(v, dict) or not np.array_equal(I, I0):
            return [{"kind": "no-verdicts"}]
        ks = sorted(v)
        ok = all(isinstance(x, (int, np.integer)) for x in v.values())
        return [{"kind": "check", "c": case["c"], "test": test, "ref": ref, "alpha": round(al * 1000), "keys": [int(x) for x in ks], "v": [int(v[x]) if ok else 9 for x in ks]}]
    S = np.sin(np.arange(40) * np.array([[1.0], [0.5]]))
    if k == "none":
        x = {"empty": np.array([]), "emptyrows": np.array([[], []])}.get(case["why"])
        if x is None:
            x = S.copy()
            if case["why"] == "nanall":
                x[:] = np.nan
            else:
                x[(1, 39) if case["why"] == "nan" else (0, 0)] = np.nan
        return [{"kind": "none", "why": case["why"], "none": whitenoise_check(x) is None and whitenoise_check(x, test_name="apriori") is None}]
    w = case["why"]
    a = {"list": ([list(r) for r in S], {}), "tuple": (tuple(S), {}), "alpha0": (S, {"alpha": 0.0}), "alpha1": (S, {"alpha": 1.0}), "alphaneg": (S, {"alpha": -0.5}), "alpha2": (S, {"alpha": 2.0}), "alpha15": (S, {"alpha": 1.5}),
         "alphastr": (S, {"alpha": "0.5"}), "alphaint": (S, {"alpha": 1}), "test": (S, {"test_name": "prior"}), "testnone": (S, {"test_name": None}), "ref0": (S, {"rescaling_imf": 0}),
         "refneg": (S, {"rescaling_imf": -1}), "refbig": (S, {"rescaling_imf": 3}), "reffloat": (S, {"rescaling_imf": 1.0})}[w]
    try:
        whitenoise_check(a[0], **a[1])
        rej = False
    except Exception:
        rej = True
    return [{"kind": "rej", "why": w, "rejected": rej}]


def stats(recs):
    r = [x for x in recs if x["kind"] == "check"]
    return {"components": sum(len(x["c"]) for x in r), "significant": sum(sum(x["v"]) for x in r)}
