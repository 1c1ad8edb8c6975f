"""K01: foreground masks (specification module Masking)."""
import copy
from .. import drv_mask

ID, TRACE = "K01", "Trace_Masking"
MODELS = {"quick": [("MC_Masking", "MC_Masking_quick.cfg")],
          "thorough": [("MC_Masking", "MC_Masking_thorough.cfg")]}
ASSUMPTIONS = ["positions and radii in quarter pixels; symmetrised masks are square"]
execute = drv_mask.execute
CLAUSES = ("K01.",)


def scenarios(ctx):
    return [drv_mask.gen_masks(ctx.rng) for _ in range(ctx.pick(400, 6000))] + \
        [drv_mask.gen_expand(ctx.rng) for _ in range(ctx.pick(150, 3000))]


def canaries(records, rng):
    out = []
    for r in rng.sample([r for r in records if r["op"] == "bmask"], 30):
        c = copy.deepcopy(r)
        i, j = rng.randrange(c["nr"]), rng.randrange(c["nc"])
        c["got"][i][j] = 0 if c["got"][i][j] else c["flag"]
        out.append(c)
    for r in rng.sample([r for r in records if r["op"] == "expand"], 20):
        c = copy.deepcopy(r)
        if rng.random() < 0.3:
            c["rest_same"] = 0
        else:
            i, j = rng.randrange(c["nr"]), rng.randrange(c["nc"])
            g, p = c["got"][0][i][j], c["plain"][0][i][j]
            c["got"][0][i][j] = p if g != p else g ^ c["ebit"] if not g & c["ebit"] else g ^ 128
        out.append(c)
    return out
