"""C20: morphological image variant, extrema, envelopes and sifting."""
from vp import c19
from vp.c19 import run, stats  # noqa: F401

PROP, TRACE = "C20", "ImageTrace"
MODELS = [("GridMC", "GridMC.cfg", ("quick", "thorough")), ("GridMC", "GridMC34.cfg", ("quick", "thorough")), ("GridMC", "GridMC25.cfg", ("thorough",)),
          ("BemdMC", "BemdMC.cfg", ("quick", "thorough")), ("BemdMC", "BemdMC9.cfg", ("thorough",))]
ASSUMPTIONS = ["peaks on images in quarter units (exact in floating point)",
               "envelopes: knot sets with a condition number below 1e7; sifting: runs whose outcome changes when the image is disturbed by 1e-11 are left out"]


def gen(tier, rng):
    for c in c19.cases(tier, rng):
        if c["k"] in ("peaks", "env", "end") or (c["k"] in ("proto", "run") and c["which"] == "BEMD"):
            yield c
    for _ in range(1500 if tier == "thorough" else 400):
        x = rng.random()
        cfg = {"MAX_ITERATION": rng.choice([1, 2, 4, 6]), "FIXE": rng.choice([1, 2, 4]) if x < 0.4 else 0, "FIXE_H": rng.choice([1, 2]) if x > 0.7 else 0, "mean_thr": rng.choice([0.01, 0.2, 1, 3])}
        yield {"k": "run", "which": "BEMD", "cfg": cfg, "im": c19.image(rng, rng.choice(["int", "gauss", "waves"])), "limit": rng.choice([1, 2, 3]), "call": rng.random() < 0.5, "dt": "d"}
    for _ in range(1000 if tier == "thorough" else 250):
        cfg = {"MAX_ITERATION": rng.choice([6, 9, 12]), "FIXE": 0, "FIXE_H": rng.choice([2, 2, 3])}
        yield {"k": "run", "which": "BEMD", "cfg": cfg, "im": c19.image(rng, rng.choice(["int", "gauss", "waves"])), "limit": rng.choice([1, 2]), "call": False, "dt": "d", "tune": rng.randrange(9)}
