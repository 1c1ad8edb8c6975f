"""F02: values of band-averaged measurements (specification module Wavg)."""
import copy
from .. import drv_wavg
from . import f01

ID, TRACE = "F02", "Trace_Wavg"
MODELS = f01.MODELS
ASSUMPTIONS = f01.ASSUMPTIONS
execute = drv_wavg.run


def scenarios(ctx):
    return ([drv_wavg.gen(ctx.rng, (0.0, 0.05, 0.15)[i % 3]) for i in range(ctx.pick(500, 6000))]
            + f01.modelled(ctx, ctx.pick(200, 4000)))


def canaries(records, rng):
    out = []
    good = [r for r in records if r["outcome"] == "ok" and r["res"]["flags"] == 0]
    for r in rng.sample(good, min(8, len(good))):
        for key in ("T", "g1", "pT", "s2n2"):
            c = copy.deepcopy(r)
            c["res"][key] += 12
            c["canary"] = key
            out.append(c)
    return out
