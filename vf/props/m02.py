"""M02: one labelled row per detection, combination and type"""
from .. import drv_mdet
from . import _mdet

ID, TRACE = "M02", "Trace_Pipeline"
MODELS = _mdet.MODELS
ASSUMPTIONS = _mdet.ASSUMPTIONS
execute = drv_mdet.execute


def scenarios(ctx):
    rng = ctx.rng
    out = [drv_mdet.gen(rng) for _ in range(ctx.pick(90, 500))]
    for sk in ctx.sample(ctx.emitted("pipe"), ctx.pick(40, 200)):
        out.append(drv_mdet.gen(rng, skeleton=sk))
    return out


def _inc(key, d):
    def f(row):
        row[key] += d
        return True
    return f


def canaries(records, rng):
    return _mdet.row_canaries(records, rng, {"r": _inc("r", 1000), "T": _inc("T", 300)}, 4)
