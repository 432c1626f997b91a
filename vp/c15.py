"""C15: plots."""
import math
import re
import numpy as np
from vp.core import generate, q

PROP, TRACE = "C15", "PlotTrace"
MODELS = []
ASSUMPTIONS = ["analytic signal recomputed with an independent direct Fourier sum; samples where its magnitude is below 1e-5 of the largest are not drawn into cases", "uniform time steps",
               "smoothing at strengths in steps of 1/8; intermediate phase and frequency enter as witnesses whose equations the specification checks"]
N = 16


def gen(tier, rng):
    big = tier == "thorough"
    for h in generate("PlotGen", {"MaxComps": 4, "Depth": 1}, ("Sane", "Emit")):
        yield {"k": "plot", "h": h, "seed": rng.randrange(10 ** 6)}
    for h in generate("PlotGen", {"MaxComps": 3, "Depth": 4}, ("Sane", "Emit"), simulate=(1500 if big else 150, 4), seed=rng.randrange(10 ** 6)):
        yield {"k": "plot", "h": h, "seed": rng.randrange(10 ** 6)}
    for _ in range(2500 if big else 350):
        yield {"k": "freq", "m": rng.choice([1, 2, 3]), "n": rng.choice([7, 8, 15, 16, 31, 40]), "h": rng.choice([1.0, 0.01, 0.5, 20.0]), "t0": rng.choice([0.0, 3.0, -10.0]), "order": rng.random() < 0.5, "seed": rng.randrange(10 ** 6),
               "kind": rng.choice(["noise", "tone", "chirp", "offset"]), "obj": rng.random() < 0.2}
    for _ in range(1500 if big else 200):
        yield {"k": "freq", "m": rng.choice([1, 2]), "n": rng.choice([9, 16, 31, 40]), "h": rng.choice([1.0, 0.01, 20.0]), "t0": 0.0, "order": rng.random() < 0.5, "seed": rng.randrange(10 ** 6),
               "kind": rng.choice(["noise", "tone", "chirp", "offset"]), "obj": False, "p": rng.choice([-3, -2, -1, 0, 1, 2, 3])}
    for _ in range(300 if big else 60):
        yield {"k": "smooth", "n": 64, "cyc": rng.choice([3, 4, 6, 8]), "h": rng.choice([1.0, 0.01, 5.0]), "alpha": rng.choice([-0.4, -0.1, 0.0, 0.2, 0.45]), "order": rng.random() < 0.5}
    for al in (-2.0, -0.501, -0.5, -0.499, -0.2, 0.0, 0.3, 0.499, 0.5, 0.501, 3.0):
        yield {"k": "strength", "alpha": al}


labels = []  # numbers in the row labels of the last figure


class Obj:
    def __init__(self, imfs, res):
        self.d = (imfs, res)

    def get_imfs_and_residue(self):
        return self.d


def figrows(plt, before):
    new = [f for f in plt.get_fignums() if f not in before]
    if len(new) != 1:
        return None
    fig = plt.figure(new[0])
    axes = sorted(fig.axes, key=lambda a: -a.get_position().y0)
    rows = [[(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in a.get_lines()] for a in axes]
    labels.clear()
    labels.extend([int(x) for x in re.findall(r"\d+", a.get_ylabel())] for a in axes)
    plt.close(fig)
    return rows


def order(case):
    w = case["seed"] % 4
    return {} if w == 0 and not case["order"] else {"order": np.bool_(case["order"]) if w == 1 else case["order"]}


def eq(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(a, b)


def analytic(x):
    n = len(x)
    k = np.arange(n)
    W = np.exp(-2j * np.pi * np.outer(k, k) / n)
    X = W @ x
    g = np.zeros(n)
    g[0] = 1
    g[1:(n + 1) // 2] = 2
    if n % 2 == 0:
        g[n // 2] = 1
    return np.conj(W) @ (X * g) / n


def run(case):
    import matplotlib
    matplotlib.use("Agg")
    import pylab as plt
    from PyEMD.visualisation import Visualisation
    k = case["k"]
    r = np.random.RandomState(case.get("seed", 1))
    if k == "plot":
        h = case["h"]
        no = h[0]["obj"]
        data = {}
        oi, ores = r.normal(size=(max(no, 1), N)), r.normal(size=N)
        vis = Visualisation(Obj(oi, ores)) if no else Visualisation()
        out = []
        for a in h:
            ai, ares = r.normal(size=(max(a["arg"], 1), N)), r.normal(size=N)
            t = np.arange(N) * 0.5 + 2
            copies = [x.copy() for x in (oi, ores, ai, ares, t)]
            before = set(plt.get_fignums())
            kw = {}
            if a["arg"]:
                kw["imfs"] = ai
            if a["op"] == "imfs":
                if a["res"]:
                    kw["residue"] = ares
                if a["t"]:
                    kw["t"] = t
                kw["include_residue"] = (np.bool_(a["inc"]) if r.rand() < 0.3 else int(a["inc"])) if r.rand() < 0.3 else a["inc"]
                if a["inc"] and r.rand() < 0.5:
                    del kw["include_residue"]     # the default
            refused = False
            try:
                vis.plot_imfs(**kw) if a["op"] == "imfs" else vis.plot_instant_freq(t, **kw)
            except Exception:
                refused = True
            rec = {"kind": "plot", "a": a, "refused": refused, "rows": [], "labels": []}
            if not refused:
                rows = figrows(plt, before)
                if rows is None:
                    return out + [{"kind": "no-figure"}]

                def name(y):
                    for w, arr in (("arg", ai if a["arg"] else []), ("obj", oi if no else [])):
                        for j, v in enumerate(arr):
                            if eq(y, v):
                                return [w, j + 1]
                    return ["argres", 0] if eq(y, ares) else ["objres", 0] if eq(y, ores) else ["unknown", -1]
                rec["rows"] = [[{"y": name(y), "x": "given" if eq(x, t) else "index" if eq(x, np.arange(N)) else "unknown"} for x, y in row] for row in rows]
                rec["labels"] = list(labels)
            plt.close("all")
            out.append(rec)
            out.append({"kind": "changed", "same": all(eq(x, y) for x, y in zip(copies, (oi, ores, ai, ares, t)))})
        return out
    if k == "freq":
        n, m = case["n"], case["m"]
        i = np.arange(n)
        t = case["t0"] + case["h"] * i
        for _ in range(50):
            if case["kind"] == "noise":
                x = r.normal(size=(m, n))
            elif case["kind"] == "tone":
                x = np.cos(r.uniform(0.2, 2.8, size=(m, 1)) * i + r.uniform(0, 6, size=(m, 1)))
            elif case["kind"] == "chirp":
                x = np.cos(r.uniform(0.1, 1, size=(m, 1)) * i + r.uniform(0, 0.04, size=(m, 1)) * i * i)
            else:
                x = np.cos(r.uniform(0.2, 2.8, size=(m, 1)) * i) + 0.3
            z = np.array([analytic(row) for row in x])
            if "p" in case:
                from PyEMD.compact import filt6, pade6
                al = case["p"] / 8
                z = np.array([filt6(row.real, al) + 1j * filt6(row.imag, al) for row in z])
            if np.min(np.abs(z)) > 1e-5 * np.max(np.abs(z)):
                break
        else:
            return []
        before = set(plt.get_fignums())
        vis = Visualisation(Obj(x, x[0])) if case["obj"] else Visualisation()
        vis.plot_instant_freq(t, **({} if case["obj"] else {"imfs": x}), **order(case), **({"alpha": al} if "p" in case else {}))
        rows = figrows(plt, before)
        if rows is None or len(rows) != m or any(len(w) != 1 for w in rows):
            return [{"kind": "no-figure"}]
        h = t[1] - t[0]
        if "p" in case:
            out = []
            for zr, w in zip(z, rows):
                a = np.angle(zr)
                g = filt6(np.unwrap(a), al)
                f0 = pade6(g, 1.0) if case["order"] else np.append(np.diff(g), g[-1] - g[-2])
                c = 16384 / (2 * math.pi)
                out.append({"kind": "smoothf", "order": case["order"], "p": case["p"], "a": [q(float(v), c) for v in a], "g": [q(float(v), c) for v in g], "f0": [q(float(v), c) for v in f0], "f": [q(float(v) * h, 16384) for v in w[0][1]]})
            return out
        return [{"kind": "freq", "order": case["order"], "a": [[q(float(v), 16384 / (2 * math.pi)) for v in np.angle(row)] for row in z], "f": [[q(float(v) * h, 16384) for v in w[0][1]] for w in rows]}]
    if k == "smooth":
        n = case["n"]
        t = np.arange(n) * case["h"]
        x = np.cos(2 * np.pi * case["cyc"] * np.arange(n) / n + 0.3)[None, :]
        before = set(plt.get_fignums())
        Visualisation().plot_instant_freq(t, imfs=x, order=case["order"], alpha=case["alpha"])
        rows = figrows(plt, before)
        f = rows[0][0][1] * case["h"]
        mid = f[n // 2 - 6:n // 2 + 6]
        return [{"kind": "smooth", "what": "steady-frequency", "err": q(float(np.max(np.abs(mid - case["cyc"] / n))), 1e6), "tol": 2000}]
    x = np.cos(0.7 * np.arange(20))[None, :]
    try:
        Visualisation().plot_instant_freq(np.arange(20.0), imfs=x, alpha=case["alpha"])
        ref = False
    except Exception:
        ref = True
    plt.close("all")
    return [{"kind": "strength", "alpha": q(case["alpha"], 1000), "refused": ref}]


def stats(recs):
    return {"refused_calls": sum(1 for r in recs if r["kind"] == "plot" and r["refused"]), "high_order": sum(1 for r in recs if r["kind"] == "freq" and r["order"])}
