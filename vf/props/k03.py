"""K03: corrections of multi-band observations (specification module Masking)."""
import copy
from .. import drv_mask

ID, TRACE = "K03", "Trace_Masking"
MODELS = {"quick": [("MC_Masking", "MC_Masking_quick.cfg")],
          "thorough": [("MC_Masking", "MC_Masking_thorough.cfg")]}
ASSUMPTIONS = ["observations carry image, weight, noise and mask; masked fraction is optional",
               "the pixels used to interpolate are not all on one line"]
execute = drv_mask.execute


def scenarios(ctx):
    return [drv_mask.gen_hist(ctx.rng) for _ in range(ctx.pick(300, 4000))] + [
        drv_mask.gen_hist(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("hist"), ctx.pick(150, 2500))]


def canaries(records, rng):
    out = []
    for r in rng.sample([r for r in records if r["op"] == "step"], 12):
        for p, d in (("w", 1), ("bm", 1 << 27), ("mf", 7)):
            c = copy.deepcopy(r)
            b = c["after"][-1]
            if not b[p]:
                continue
            i, j = rng.randrange(c["nr"]), rng.randrange(c["nc"])
            b[p][i][j] += d
            out.append(c)
    for r in [r for r in records if r["op"] == "step" and r["step"]["what"] != "interp-noise"
              and r["step"]["what"] != "interp"][:10]:
        c = copy.deepcopy(r)
        c["after"][0][rng.choice(["im", "no"])][rng.randrange(c["nr"])][rng.randrange(c["nc"])] += 900
        out.append(c)
    return out
