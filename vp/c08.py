"""C08: results depend only on the call; accessors on the last successful call."""
import copy
import functools
import pickle
import numpy as np
from vp.core import generate
from vp.sig import layout

PROP, TRACE = "C08", "InstanceTrace"
MODELS = []
ASSUMPTIONS = ["a call is (configuration, signal, limit) plus the seed set right before it for the noise assisted variants",
               "histories come from TLC: all of a bounded length and random longer ones"]

R = np.random.RandomState(5)
N = 24
SIG = [None,
       np.cumsum(R.normal(size=N)),
       np.zeros(N),
       np.sin(np.arange(N) * 1.1) + 0.4 * np.sin(np.arange(N) * 0.3),
       np.linspace(0, 3, N) ** 2,
       np.array([0, 1, 1, -1, 0, 2, 2, 2, -1, 0, 0, 1, -2, 0, 1, 0, -1, 2, 0, 0, 1, -1, 1, 0], dtype=np.float32),
       R.randint(-5, 6, size=17),
       (R.normal(size=31) * 3).astype(np.float32),
       np.tile([1.5, -1.5], N // 2)]  # no remainder at all
CFG = {"EMD": [None, {}, {"spline_kind": "akima", "FIXE": 2}, {"FIXE_H": 2, "nbsym": 3, "MAX_ITERATION": 20}, {"extrema_detection": "parabol"}, {"range_thr": 0.5, "total_power_thr": 3.0, "svar_thr": 0.05},
               {"MAX_ITERATION": 3}],
       "EEMD": [None, {}, {"noise_width": 0.3}, {"separate_trends": True}, {"trials": 2}, {"noise_kind": "uniform"}],
       "CEEMDAN": [None, {}, {"epsilon": 0.05}, {"beta_progress": False}, {"trials": 2}, {"noise_kind": "uniform"}]}
DEF = {"spline_kind": "cubic", "FIXE": 0, "FIXE_H": 0, "nbsym": 2, "MAX_ITERATION": 1000, "extrema_detection": "simple", "range_thr": 0.001,
       "total_power_thr": 0.005, "svar_thr": 0.001}
DEFN = {"EEMD": {"noise_width": 0.05, "separate_trends": False, "trials": 4, "noise_kind": "normal"},
        "CEEMDAN": {"epsilon": 0.005, "beta_progress": True, "trials": 4, "noise_kind": "normal"}}
TIME = {3: np.cumsum(1 + (np.arange(N) * 5 % 4)).astype(float), 7: (np.cumsum(1 + (np.arange(31) * 3 % 5)) / 4).astype(np.float32)}  # the call includes this time axis
PAR_SIGS = [1, 3, 4, 7, 8]  # neighbouring samples differ


def gen(tier, rng):
    big = tier == "thorough"
    hows = {"EMD": "{1, 2, 3}", "EEMD": "{1, 2}", "CEEMDAN": "{1, 2}"}
    for cls in ("EMD", "EEMD", "CEEMDAN"):
        base = {"Hows": hows[cls], "Trends": "TRUE" if cls == "EMD" else "FALSE"}
        small = dict(base, Sigs="{1, 2}", Ms="{1, 9}", Cfgs="{1, 2}", Depth=4 if cls == "EMD" or big else 3)
        for sigs, dd in (("{1, 8}", 0), ("{2, 8}", 1)):
            small.update(Sigs=sigs, Depth=small["Depth"] - dd)
            for h in generate("InstanceGen", small, ("Same", "Emit")):
                yield {"cls": cls, "h": h}
        wide = dict(base, Sigs="{1, 2, 3, 4, 5, 6, 7, 8}", Ms="{1, 2, 9}", Cfgs="{%s}" % ", ".join(str(i) for i in range(1, len(CFG[cls]))), Depth=14)
        for h in generate("InstanceGen", wide, ("Same", "Emit"), simulate=((3000 if big else 500) if cls == "EMD" else (400 if big else 60), 14), seed=rng.randrange(10 ** 6)):
            yield {"cls": cls, "h": h}


def make(cls, c, parallel=False):
    import PyEMD
    if cls == "EMD":
        return PyEMD.EMD(**CFG["EMD"][c])
    k = dict(DEFN[cls])
    k.update(CFG[cls][c])
    return getattr(PyEMD, cls)(parallel=False, **k)


def setcfg(o, cls, c):
    k = dict(DEF if cls == "EMD" else DEFN[cls])
    k.update(CFG[cls][c])
    for a, v in k.items():
        setattr(o, a, v)


def call(o, cls, S, m, way, g, Ts=None):
    mi = -1 if m == 9 else m
    if cls != "EMD":
        o.noise_seed(7 + len(S) + m)
    T = (np.arange(len(S)) * 0.5).astype(S.dtype if S.dtype.kind == "f" else float) if way % 3 == 2 else None
    if g in TIME:
        T = layout(TIME[g], way % 4)
    if Ts is not None and T is not None:
        Ts.append((T, T.copy()))
    if way % 2:
        return o(S, T, mi) if way % 3 else o(S, max_imf=mi, T=T)
    f = getattr(o, cls.lower())
    return f(S, T, max_imf=mi) if way % 3 else f(S, T=T, max_imf=mi)


class Ids:
    """arrays with equal contents (to 1e-11) get equal numbers"""

    def __init__(self):
        self.seen = []

    def __call__(self, a):
        a = np.array(a, dtype=float)
        for i, b in enumerate(self.seen):
            if a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= 1e-11 * (1 + np.max(np.abs(b)))):
                return i
        self.seen.append(a.copy())
        return len(self.seen) - 1


def fails(o, cls, how):
    S = SIG[1]
    try:
        if cls == "EMD":
            if how == 1:
                o.emd(S, np.arange(len(S) + 3.0))
            elif how == 2:
                k = o.spline_kind
                o.spline_kind = "nonsense"
                try:
                    o.emd(S)
                finally:
                    o.spline_kind = k
            else:
                k = o.extrema_detection
                o.extrema_detection = "parabol"
                try:
                    o.emd(S, np.zeros(len(S)))
                finally:
                    o.extrema_detection = k
        else:
            if how == 1:
                f = getattr(o, cls.lower())
                f(S, np.arange(len(S) + 3.0))
            else:
                k = o.noise_kind
                o.noise_kind = "pink"
                try:
                    o(S)
                finally:
                    o.noise_kind = k
        return False
    except (ValueError, AssertionError):
        return True


@functools.lru_cache(maxsize=None)
def fresh(cls, c, g, m):
    o = make(cls, c)
    S = SIG[g].copy()
    ret = np.array(call(o, cls, S, m, 0, g))
    modes, rest = o.get_imfs_and_residue()
    return ret, np.array(modes), np.array(rest)


def run(case):
    cls = case["cls"]
    o = make(cls, 1)
    c = 1
    ids = Ids()
    steps, need = [], {}
    lastS = lastR = None
    for i, a in enumerate(case["h"]):
        a = dict(a)
        a["raised"] = False
        op = a["op"]
        try:
            if op == "call":
                if cls == "EMD" and c == 4 and a["g"] not in PAR_SIGS:
                    a["g"] = PAR_SIGS[a["g"] % len(PAR_SIGS)]
                need[(c, a["g"], a["m"])] = 1
                way = i + len(case["h"]) + a["g"]
                S = layout(SIG[a["g"]], (way // 2) % 5)
                a["same"] = True
                Ts = []
                ret = call(o, cls, S, a["m"], way, a["g"], Ts)
                a["same"] = bool(np.array_equal(S, SIG[a["g"]]) and all(np.array_equal(x, y) for x, y in Ts))
                a["ret"] = ids(ret)
                lastS, lastR = S, ret
            elif op == "fail":
                a["raised"] = fails(o, cls, a["how"])
            elif op == "cfg":
                c = a["c"]
                setcfg(o, cls, c)
            elif op == "res":
                modes, rest = o.get_imfs_and_residue()
                a["modes"], a["rest"] = ids(modes), ids(rest)
            elif op == "trend":
                modes, rest = o.get_imfs_and_trend()
                a["modes"], a["rest"], a["k"] = ids(modes), ids(rest), len(modes)
            elif op == "mutin":
                if lastS is not None and lastS.flags.writeable:
                    lastS[:] = 77
            elif op == "mutout":
                if lastR is not None and cls == "EMD":
                    lastR[...] = -55
            elif op == "pickle":
                o = pickle.loads(pickle.dumps(o))
            elif op == "copy":
                o = copy.deepcopy(o)
        except Exception:
            a["raised"] = True
            a.setdefault("ret", -1)
        steps.append(a)
    fr = []
    for k in need:
        ret, modes, rest = fresh(cls, *k)
        n = len(modes)
        fr.append({"call": list(k), "ret": ids(ret), "modes": ids(modes), "rest": ids(rest), "k": n, "zero": bool(np.allclose(rest, 0)),
                   "most": ids(modes[:-1]) if n else -1, "lastmode": ids(modes[-1]) if n else -1})
    return [{"kind": "hist", "cls": cls, "steps": steps, "fresh": fr}]


def stats(recs):
    r = [x for x in recs if x["kind"] == "hist"]
    return {"by_class": {c: sum(x["cls"] == c for x in r) for c in CFG}, "steps": sum(len(x["steps"]) for x in r), "longest": max([len(x["steps"]) for x in r] or [0])}
