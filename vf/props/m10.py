"""M10: the original PSF summary"""
from .. import drv_mdet
from . import _mdet

ID, TRACE = "M10", "Trace_Pipeline"
MODELS = _mdet.MODELS
ASSUMPTIONS = _mdet.ASSUMPTIONS
execute = drv_mdet.execute


def scenarios(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(70, 400)):
        nb = rng.randint(1, 3)
        out.append(drv_mdet.gen(
            rng, nband=nb, style=rng.choice(["plain", "wvar"]), nobj=2, colour=rng.randint(0, 1),
            psf_fail=[(rng.randint(0, 2), rng.randint(0, 2))] if rng.random() < 0.5 else None))
    for sk in ctx.sample([s for s in ctx.emitted("pipe") if s["bad"]], ctx.pick(30, 200)):
        out.append(drv_mdet.gen(rng, skeleton=sk))
    return out


def _inc(key, d):
    def f(row):
        row[key] += d
        return True
    return f


def _pf(row):
    row["pf"] = 0 if row["pf"] else 1
    return True


def canaries(records, rng):
    return _mdet.row_canaries(records, rng, {"pf": _pf, "pe1": _inc("pe1", 8)}, 4)
