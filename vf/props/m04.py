"""M04: masks, masked fraction and PSF summary of a row come from its shear bands"""
from .. import drv_mdet
from . import _mdet

ID, TRACE = "M04", "Trace_Pipeline"
MODELS = _mdet.MODELS
ASSUMPTIONS = _mdet.ASSUMPTIONS
execute = drv_mdet.execute


def scenarios(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(80, 500)):
        nb = rng.choice([2, 3, 3, 4])
        combs = [rng.sample(range(nb), rng.randint(1, nb)) for _ in range(rng.randint(1, 3))]
        if nb > 2 and rng.random() < 0.5:       # combinations which are easily confused
            a = rng.sample(range(nb), nb - nb % 2)
            combs = [a[:len(a) // 2], a[len(a) // 2:]]
            if nb == 4 and rng.random() < 0.7:
                combs = rng.sample([[0, 3], [1, 2], [3], [0, 1, 2]], 2)
        out.append(drv_mdet.gen(
            rng, nband=nb, style=rng.choice(["plain", "wvar", "holes"]), step="3/5", combs=combs,
            nobj=rng.randint(1, 4)))
    for sk in ctx.sample(ctx.emitted("pipe"), ctx.pick(30, 200)):
        out.append(drv_mdet.gen(rng, skeleton=sk))
    return out


def _inc(key, d):
    def f(row):
        row[key] += d
        return True
    return f


def _xor(key):
    def f(row):
        row[key] ^= 1
        return True
    return f


def canaries(records, rng):
    return _mdet.row_canaries(records, rng, {
        "om": _xor("om"), "bm": _xor("bm"), "mfi": _inc("mfi", 9), "pT": _inc("pT", 60)}, 3)
