"""K04: interpolation over masked pixels (specification module Interp)."""
import copy
from .. import drv_mask

ID, TRACE = "K04", "Trace_Masking"
MODELS = {"quick": [("MC_Interp", "MC_Interp_quick.cfg")],
          "thorough": [("MC_Interp", "MC_Interp_thorough.cfg")]}
ASSUMPTIONS = ["the pixels used to interpolate are not all on one line",
               "values are specified for images linear on those pixels; for others only what they depend on"]
execute = drv_mask.execute


def scenarios(ctx):
    out = [drv_mask.gen_interp(ctx.rng) for _ in range(ctx.pick(350, 5000))]
    more = [drv_mask.gen_interp(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("mask"), ctx.pick(250, 4000))]
    return out + [m for m in more if m]


def canaries(records, rng):
    out = []
    img = [r for r in records if r["outcome"] == "image" and r["bad"]]
    for r in rng.sample(img, 12):
        c = copy.deepcopy(r)
        c["good_same"] = 0
        out.append(c)
        c = copy.deepcopy(r)
        c["pair_same"] = 0
        out.append(c)
    for r in [r for r in img if r["draws"]][:8]:
        c = copy.deepcopy(r)
        c["draws"][0]["scale2inv"] *= 2
        out.append(c)
    for r in [r for r in records if r["outcome"] == "none"][:8]:
        c = copy.deepcopy(r)
        c["outcome"] = "image"
        out.append(c)
    return out
