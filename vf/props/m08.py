"""M08: mask columns are clipped windows around the object"""
from .. import drv_mdet
from . import _mdet

ID, TRACE = "M08", "Trace_Pipeline"
MODELS = _mdet.MODELS
ASSUMPTIONS = _mdet.ASSUMPTIONS
execute = drv_mdet.execute


def scenarios(ctx):
    rng = ctx.rng
    return [drv_mdet.gen(rng, style="plain", nobj=rng.randint(1, 5),
                         step=rng.choice(["3/5", "3/5", "4/5", "5/13", "1/100"]),
                         mask_region=rng.choice([-1, 0, 1, 2, 3, 4, 20]),
                         ormask_region=rng.choice([-1, -1, 0, 1, 2, 5, 20]))
            for _ in range(ctx.pick(60, 600))]


def _xor(key):
    def f(row):
        row[key] ^= 1
        return True
    return f


def canaries(records, rng):
    return _mdet.row_canaries(records, rng, {
        "om": _xor("om"), "bm": _xor("bm")}, 4)
