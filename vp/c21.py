"""C21: plain image variant, sifting."""
from vp import c19
from vp.c19 import run, stats  # noqa: F401

PROP, TRACE = "C21", "ImageTrace"
MODELS = [("BemdMC", "BemdMC.cfg", ("quick", "thorough")), ("BemdMC", "BemdMC9.cfg", ("thorough",)), ("ImageMC", "ImageMC.cfg", ("quick", "thorough"))]
ASSUMPTIONS = ["runs whose outcome changes when the image is disturbed by 1e-11 are left out"]


def gen(tier, rng):
    for c in c19.cases(tier, rng):
        if c["k"] in ("end", "run") and c["which"] == "EMD2D":
            yield c
    big = tier == "thorough"
    for _ in range(3000 if big else 600):
        x = rng.random()
        cfg = {"MAX_ITERATION": rng.choice([1, 2, 4, 6, 9]), "FIXE": rng.choice([1, 2, 4]) if x < 0.3 else 0, "FIXE_H": rng.choice([1, 2, 3]) if x > 0.6 else 0,
               "mean_thr": rng.choice([0.01, 0.05, 0.1, 0.2, 0.4]), "mse_thr": rng.choice([0.01, 1e-4])}
        im = c19.image(rng, rng.choice(["int", "gauss", "gauss", "waves"]), rng.random() < 0.9)
        sc, of = rng.choice([1, 1, 100, 0.01]), rng.choice([0, 0, 7, -300])
        yield {"k": "run", "which": "EMD2D", "cfg": cfg, "im": [[v * sc + of for v in r] for r in im], "limit": rng.choice([1, 2, 3, 0, 0, 4]), "call": rng.random() < 0.5, "dt": "d"}
    for _ in range(1500 if big else 300):
        cfg = {"MAX_ITERATION": rng.choice([6, 9, 12]), "FIXE": 0, "FIXE_H": rng.choice([2, 2, 3])}
        yield {"k": "run", "which": "EMD2D", "cfg": cfg, "im": c19.image(rng, rng.choice(["int", "gauss", "gauss", "waves"]), True), "limit": rng.choice([1, 2, 3]), "call": False, "dt": "d", "tune": rng.randrange(9)}
