"""C18: the JIT variant computes the same decomposition."""
import itertools
import numpy as np
from vp.sig import rand_signal
from vp.core import q
from vp import c02, c03, c04, c07, siftobs
from vp.c01 import limbs
from vp.c05 import P, V

PROP, TRACE = "C18", "JitTrace"
MODELS = [("EmdMC", "EmdMC_%s.cfg" % r, ("quick", "thorough")) for r in ("fixe", "fixeh", "default")]
ASSUMPTIONS = ["double precision signals of three or more samples on the sample index axis; parabolic detection only for signals whose neighbouring samples differ",
               "whole runs: left out where the outcome changes when the signal is scaled by 1 +- 1e-12; comparisons within 1e-6 of a threshold may go either way"]
SPLINES = ["cubic", "akima", "linear", "slinear", "quadratic"]
try:                                     # compiles for most of a minute: once, before the workers are forked
    from PyEMD.experimental import jitemd as J
    from numba import typed, types
    _T = np.arange(9.0)
    _S = np.array([0.0, 1, -1, 2, 0, 1.5, -2, 1, 0])
    for _d in ("simple", "parabol"):
        J.JitEMD(extrema_detection=_d).emd(_S, _T)
    for _nb in (1, 2):
        J.prepare_points(_T, _S, np.array([1.0, 3, 5]), np.array([1.0, 2, 1.5]), np.array([2.0, 6]), np.array([-1.0, -2]), 'simple', _nb)
    J.spline_points(_T, np.array([[-1.0, 4, 9], [0.0, 1, 0]]), "cubic")
    LOAD = None
except Exception as e:                   # reported by every case
    LOAD = e


def gen(tier, rng):
    big = tier == "thorough"
    for n in range(3, 8 if big else 7):
        for s in itertools.product((-1, 0, 1), repeat=n):
            yield {"k": "ext", "s": list(s), "v": (sum((i + 2) * x for i, x in enumerate(s)) + n) % 4}
            if n > 3:
                yield {"k": "par", "s": list(s), "o": rng.choice([0, 0, 5]), "v": rng.randrange(4)}
    for _ in range(8000 if big else 1500):
        yield {"k": "ext", "s": rand_signal(rng, rng.choice([5, 9, 16, 40])), "v": rng.choice([0, 1, 2, 3, 6])}
    for _ in range(8000 if big else 1500):
        m = rng.choice([2, 5, 12])
        yield {"k": "par", "s": [rng.randint(-m, m) for _ in range(rng.choice([4, 6, 9, 15, 25]))], "o": rng.choice([0, 0, -6, 11]), "v": rng.randrange(4)}
    for _ in range(20000 if big else 4000):
        mode = rng.choice(["simple", "parabol"])
        n = rng.choice([6, 9, 14])
        u = 1 if mode == "simple" else 4
        k = rng.randint(3, min(8, n - 2))
        pos = sorted(rng.sample(range(1 if u == 1 else 2, (n - 2) * u + (1 if u == 1 else 2)), k))
        fm = rng.random() < 0.5
        val, up = [], fm
        for _ in pos:
            val.append(rng.randint(2, 6) if up else rng.randint(-6, -2))
            up = not up
        yield {"k": "mir", "mode": mode, "n": n, "pos": pos, "val": val, "fm": fm, "ends": [rng.randint(-8, 8), rng.randint(-8, 8)], "nb": rng.choice([1, 2, 2, 3, 5])}
    for kd in SPLINES:
        for _ in range(1500 if big else 250):
            n = rng.choice([3, 4, 4, 5, 6, 8, 12])
            yield {"k": "spline", "sk": kd, "h": [rng.randint(1, 4) for _ in range(n - 1)], "y": [rng.randint(-8, 8) for _ in range(n)], "o": rng.choice([0, 0, -7, 20])}
    for _ in range(3000 if big else 800):
        yield c02.crit_case(rng)
    for c in c03.gen("quick", rng):
        if c["k"] == "end":
            yield c
    for _ in range(9000 if big else 2500):
        c = siftobs.rand_case(rng)
        c["k"] = "run"
        c["t"] = None
        if c["cfg"]["spline_kind"] not in SPLINES:
            c["cfg"]["spline_kind"] = rng.choice(SPLINES)
        yield c
    for _ in range(300 if big else 60):
        n = rng.choice([12, 20, 40])
        yield {"k": "ens", "s": rand_signal(rng, n), "alg": rng.choice(["EEMD", "CEEMDAN"]), "trials": rng.randint(1, 5), "seed": rng.randrange(10 ** 6),
               "max_imf": rng.choice([-1, -1, 2]), "sk": rng.choice(SPLINES), "sep": rng.random() < 0.3, "par": rng.choice([0, 0, 0, 1, 2]), "fixe": rng.choice([0, 0, 3, 6])}
    for n in (3, 4, 5):
        for s in itertools.product((-1, 0, 2), repeat=n):
            yield {"k": "run", "s": [float(x) for x in s], "t": None, "cfg": {}, "max_imf": -1}


class Adapter:
    """the compiled variant behind the interface of the reference one, for siftobs"""

    def __init__(self, cfg):
        self.cfg = dict(cfg)
        self.extrema_detection = self.cfg.pop("extrema_detection", "simple")
        self.spline_kind = self.cfg.pop("spline_kind", "cubic")
        # not J.default_emd_config.copy(): the configuration a user would write down
        self.config = typed.Dict.empty(key_type=types.unicode_type, value_type=types.float64)
        for k, v in {"nbsym": 2, "energy_ratio_thr": 0.2, "std_thr": 0.2, "svar_thr": 0.001, "total_power_thr": 0.005, "range_thr": 0.001, "FIXE": 0, "FIXE_H": 0,
                     "MAX_ITERATION": 1000, **self.cfg}.items():
            self.config[k] = float(v)
        self.FIXE, self.FIXE_H, self.MAX_ITERATION = (int(self.config[k]) for k in ("FIXE", "FIXE_H", "MAX_ITERATION"))
        for k in ("energy_ratio_thr", "std_thr", "svar_thr", "total_power_thr", "range_thr"):
            setattr(self, k, self.config[k])
        self.obj = J.JitEMD(self.config if self.cfg else None, self.spline_kind, self.extrema_detection)

    def emd(self, S, T, max_imf):
        T = np.arange(len(S), dtype=float)
        self.out = self.obj.emd(S, T, max_imf)
        self.S = S
        return self.out

    def get_imfs_and_residue(self):
        return self.obj.imfs, self.obj.residue

    def find_extrema(self, T, h):
        return J.find_extrema(T, h, self.extrema_detection)

    def prepare_points(self, T, h, *x):
        return J.prepare_points(T, h, *x, self.extrema_detection, int(self.config["nbsym"]))

    def extract_max_min_spline(self, T, h):
        r = J.find_extrema(T, h, self.extrema_detection)
        eM, em = J.prepare_points(T, h, r[0], r[1], r[2], r[3], self.extrema_detection, int(self.config["nbsym"]))
        return J.spline_points(T, eM, self.spline_kind)[1], J.spline_points(T, em, self.spline_kind)[1], eM, em


def reference(case):
    from PyEMD import EMD
    return EMD(**case["cfg"])


def pair(case):
    S = np.array(case["s"], dtype=float)
    n = len(S)
    T = np.arange(n, dtype=float)
    if case["cfg"].get("extrema_detection") == "parabol" and np.any(np.diff(S) == 0):
        return []
    S0, T0 = S.copy(), T.copy()
    a = Adapter(case["cfg"])
    got = a.emd(S, T, case["max_imf"])
    same = bool(np.array_equal(S, S0) and np.array_equal(T, T0))
    recs = []
    rec = {"kind": "pair", "shape": bool(np.ndim(got) == 2 and got.shape[1] == n), "finite": bool(np.all(np.isfinite(got))), "same": same}
    if not (rec["shape"] and rec["finite"]):
        return [rec]
    ref = reference(case)
    want = ref.emd(S, T, case["max_imf"])
    M = max([float(np.max(np.abs(x))) for x in (S, got, want) if np.size(x)] + [1e-300])
    rest = S - np.sum(want, axis=0)
    # fragile runs
    stable = True
    for f in (1 + 1e-12, 1 - 3e-12, 1 + 7e-12):
        for o, g in ((reference(case).emd(S * f, T, case["max_imf"]), want), (Adapter(case["cfg"]).emd(S * f, T, case["max_imf"]), got)):
            if o.shape != g.shape or (g.size and np.max(np.abs(o - g)) > 1e-9 * M):
                stable = False
    if stable:                           # ties decided by rounding on the way
        stable = siftobs.run_emd(case) is not None
    rec.update(s=limbs(S, M), got=[limbs(x, M) for x in got], slack=int(min(2 ** 27, 1.1e-8 / M * 2 ** 50 + 1)))
    rec["want"] = [limbs(x, M) for x in want] if stable else rec["got"]
    recs.append(rec)
    o = a.obj
    im, tr = o.get_imfs_and_trend()
    if len(got):
        stored = bool(np.array_equal(o.imfs, got[:-1]) and np.array_equal(o.residue, got[-1]))
        zl = np.allclose(got[-1], 0)
        wi, wt = (got[:-2], got[-2]) if zl and len(got) > 1 else (got[:-1], got[-1])
        acc = bool(np.array_equal(im, wi) and np.array_equal(tr, wt))
    else:
        stored = bool(np.shape(o.imfs) == (0, n) and np.array_equal(o.residue, np.zeros(n)))
        acc = bool(np.shape(im) == (0, n) and np.array_equal(tr, np.zeros(n)))
    keep = got.copy()
    again = o(S, T, case["max_imf"])
    recs.append({"kind": "object", "stored": stored, "accessor": acc, "again": bool(np.array_equal(again, keep) and np.array_equal(got, keep))})
    if stable:
        r = siftobs.run_emd(case, lambda cfg: Split(cfg, reference(case), S, T, case["max_imf"]))
        if r:
            recs.append(r)
    return recs


class Split(Adapter):
    """modes and remainder told apart the way the reference does (the compiled variant returns them in one array)"""

    def __init__(self, cfg, ref, S, T, mi):
        super().__init__(cfg)
        self.ref, self.args = ref, (S, T, mi)

    def get_imfs_and_residue(self):
        self.ref.emd(*self.args)
        k = len(self.ref.get_imfs_and_residue()[0])
        return self.out[:k], self.S - np.sum(self.out[:k], axis=0)


def ensemble(case):
    import PyEMD
    S = np.array(case["s"], dtype=float)

    def go(ext, f=1.0, par=0):
        kw = {"trials": case["trials"], "parallel": bool(par)}
        if par:
            kw["processes"] = par
        if case["alg"] == "EEMD":
            kw["separate_trends"] = case["sep"]
        e = getattr(PyEMD, case["alg"])(ext_EMD=ext, **kw)
        e.noise_seed(case["seed"])
        return np.array(e(S * f, None, case["max_imf"]))
    ref = lambda: PyEMD.EMD(spline_kind=case["sk"], FIXE=case["fixe"])
    want = go(ref())
    M = max(float(np.max(np.abs(want))), float(np.max(np.abs(S))), 1e-300)
    for f in (1 + 1e-12, 1 - 3e-12):
        o = go(ref(), f)
        if o.shape != want.shape or np.max(np.abs(o - want)) > 1e-9 * M:
            return []
    cfg = J.default_emd_config.copy()
    cfg["FIXE"] = float(case["fixe"])
    got = go(J.JitEMD(cfg if case["fixe"] else None, spline_kind=case["sk"]), par=case["par"])
    if got.ndim != 2 or got.shape[1] != len(S) or not np.all(np.isfinite(got)):
        return [{"kind": "shape"}]
    M = max(M, float(np.max(np.abs(got))))
    return [{"kind": "ensemble", "got": [limbs(x, M) for x in got], "want": [limbs(x, M) for x in want]}]


def run(case):
    if LOAD is not None:
        raise LOAD
    k = case["k"]
    if k == "ext":
        S, T = c04.apply(case)
        T = np.arange(len(S), dtype=float)
        return [c04.observe(lambda T, S: J.find_extrema(T, S, "simple"), S, T)]
    if k == "par":
        ss = [1.0, 1.0, 0.5, 1024.0][case["v"]]
        S = np.array(case["s"], dtype=float) * ss
        t = [case["o"] + i for i in range(len(S))]
        T = np.array(t, dtype=float)
        S0, T0 = S.copy(), T.copy()
        mp, mv, lp, lv, z = J.find_extrema(T, S, "parabol")
        return [{"kind": "parabol", "t": t, "s": case["s"], "even": True, "max": [[q(a, P), q(b / ss, V)] for a, b in zip(mp, mv)],
                 "min": [[q(a, P), q(b / ss, V)] for a, b in zip(lp, lv)], "zer": [int(x) if float(x) == int(x) else -1 for x in z],
                 "same": bool(np.array_equal(S, S0) and np.array_equal(T, T0))}]
    if k == "mir":
        n, mode = case["n"], case["mode"]
        u = 1 if mode == "simple" else 4
        hi = [(p, v) for j, (p, v) in enumerate(zip(case["pos"], case["val"])) if (j % 2 == 0) == case["fm"]]
        lo = [(p, v) for j, (p, v) in enumerate(zip(case["pos"], case["val"])) if (j % 2 == 0) != case["fm"]]
        S = np.zeros(n)
        S[0], S[-1] = case["ends"]
        if mode == "simple":
            for p, v in hi + lo:
                S[p] = v
        T = np.arange(n, dtype=float)
        arr = lambda k, l: np.array([x[k] for x in l], dtype=float)
        args = [T, S, arr(0, hi) / u, arr(1, hi), arr(0, lo) / u, arr(1, lo)]
        cp = [x.copy() for x in args]
        mx, mn = J.prepare_points(*args, mode, case["nb"])
        same = all(np.array_equal(x, y) for x, y in zip(args, cp))
        out = [[[q(p * u, 1) if p * u == round(p * u) else -10 ** 6, q(v, 1) if v == round(v) else 10 ** 6] for p, v in zip(*k)] for k in (mx, mn)]
        return [{"kind": "mirror", "mode": mode, "hi": [list(x) for x in hi], "lo": [list(x) for x in lo], "a": 0, "sa": case["ends"][0],
                 "b": (n - 1) * u, "sb": case["ends"][1], "nb": case["nb"], "omax": out[0], "omin": out[1], "tol": 0, "same": same}]
    if k == "spline":
        return c07.observe(lambda T, K: J.spline_points(T, K, case["sk"]), case)
    if k == "crit":
        new, old = np.array(case["new"], float), np.array(case["old"], float)
        if np.ptp(old) == 0 or not np.any(old):
            return []
        a = Adapter(case["cfg"])
        eM, em = np.array([[0, 1, 2], case["hi"]], float), np.array([[0, 1, 2], case["lo"]], float)
        c = siftobs.crit(a, new, old, eM, em)
        c["hi"], c["lo"] = (-1 if min(case["hi"]) < 0 else 1), (-1 if max(case["lo"]) > 0 else 1)
        with np.errstate(all="ignore"):
            return [{"kind": "crit", "c": c, "got": bool(J.check_imf(new, old, eM, em, a.svar_thr, a.std_thr, a.energy_ratio_thr))}]
    if k == "end":
        a = Adapter(case["cfg"])
        rows = np.array(case["rows"])
        S = np.array(case["rest"]) + rows.sum(axis=0)
        return [{"kind": "end", "d": siftobs.ends(a, S - rows.sum(axis=0), 1e-3), "got": bool(J.end_condition(S, rows, a.range_thr, a.total_power_thr))}]
    if k == "ens":
        return ensemble(case)
    return pair(case)


def stats(recs):
    r = [x for x in recs if x["kind"] == "pair"]
    return {"runs": len(r), "compared": sum(1 for x in r if x.get("want") is not x.get("got")), "by_rules": sum(x["kind"] == "run" for x in recs), "ensembles": sum(x["kind"] == "ensemble" for x in recs)}
