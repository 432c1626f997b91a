"""Signal generators shared by the property harnesses (all driven by random.Random so that cases are JSON-able)."""
import math


def rand_signal(rng, n, kind=None):
    k = kind or rng.choice(["gauss", "ints", "sines", "walk", "plateau", "trend", "spiky", "am"])
    if k == "gauss":
        s = [rng.gauss(0, 1) for _ in range(n)]
    elif k == "ints":
        s = [float(rng.randint(-3, 3)) for _ in range(n)]
    elif k == "sines":
        f1, f2, p1, p2 = rng.uniform(0.15, 2.6), rng.uniform(0.02, 0.6), rng.uniform(0, 6), rng.uniform(0, 6)
        a = rng.uniform(0.2, 3)
        s = [math.sin(f1 * i + p1) + a * math.sin(f2 * i + p2) for i in range(n)]
    elif k == "walk":
        s, x = [], 0.0
        for _ in range(n):
            x += rng.gauss(0, 1)
            s.append(x)
    elif k == "plateau":
        s = []
        while len(s) < n:
            s += [float(rng.randint(-2, 2))] * rng.choice([1, 1, 1, 2, 3, 4])
        s = s[:n]
    elif k == "trend":
        f, a, b = rng.uniform(0.2, 2), rng.uniform(-0.2, 0.2), rng.uniform(-0.003, 0.003)
        s = [math.sin(f * i) + a * i + b * i * i for i in range(n)]
    elif k == "spiky":
        s = [rng.gauss(0, 0.1) for _ in range(n)]
        for _ in range(max(1, n // 8)):
            s[rng.randrange(n)] += rng.choice([-5, 5])
    else:
        f, g = rng.uniform(0.5, 2.5), rng.uniform(0.02, 0.2)
        s = [(1 + 0.7 * math.cos(g * i)) * math.sin(f * i) for i in range(n)]
    return s


def rand_time(rng, n, kind=None):
    k = kind or rng.choice([None, "shift", "scale", "uneven", "unevenint"])
    if k is None:
        return None
    if k == "shift":
        o = rng.choice([-50.0, 3.0, 1000.0, 0.25])
        return [o + i for i in range(n)]
    if k == "scale":
        d = rng.choice([0.001, 0.1, 0.5, 7.0])
        return [i * d for i in range(n)]
    t, x = [], rng.choice([0.0, -3.0, 5.0])
    for _ in range(n):
        t.append(x)
        x += rng.randint(1, 4) if k == "unevenint" else rng.uniform(0.3, 2.0)
    return t


def ranks(vals, extra=()):
    """dense ranks of floats (exact comparison)"""
    u = {v: i for i, v in enumerate(sorted(set(vals)))}
    return [u[v] for v in vals], u


def layout(a, k):
    """the same array laid out differently in memory: 1 every second entry, 2 backwards, 3 not writable"""
    import numpy as np
    if k == 1:
        b = np.zeros(2 * len(a), dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if k == 2:
        return a[::-1].copy()[::-1]
    a = a.copy()
    if k == 3:
        a.flags.writeable = False
    return a
