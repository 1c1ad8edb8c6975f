"""K02: apodisation masks (specification module Masking)."""
import copy
from .. import drv_mask

ID, TRACE = "K02", "Trace_Masking"
MODELS = {"quick": [("MC_Masking", "MC_Masking_quick.cfg")],
          "thorough": [("MC_Masking", "MC_Masking_thorough.cfg")]}
ASSUMPTIONS = ["positions, radii and scales in quarter pixels; mask values compared to 1e-3"]
execute = drv_mask.execute


def scenarios(ctx):
    return [drv_mask.gen_masks(ctx.rng) for _ in range(ctx.pick(300, 5000))] + [
        drv_mask.gen_edge(ctx.rng) for _ in range(ctx.pick(200, 2000))]


def canaries(records, rng):
    out = []
    for r in rng.sample([r for r in records if r["op"] in ("edge", "apmask")], 30):
        c = copy.deepcopy(r)
        i, j = rng.randrange(c["nr"]), rng.randrange(c["nc"])
        v = c["got"][i][j]
        c["got"][i][j] = v - 300 if v > 15000 else v + 300
        out.append(c)
    return out
