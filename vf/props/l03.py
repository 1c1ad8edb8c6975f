"""L03: edge and bright star masking of exposures (specification module BandMask)."""
import copy
from .. import drv_lmask

ID, TRACE = "L03", "Trace_BandMask"
MODELS = {"quick": [("MC_BandMask", "MC_BandMask_quick.cfg")],
          "thorough": [("MC_BandMask", "MC_BandMask_thorough.cfg")]}
ASSUMPTIONS = ["all bands and products share one bounding box",
               "no pixel centre lies exactly on the circle of a star's mask"]
execute = drv_lmask.execute


def scenarios(ctx):
    out = [drv_lmask.gen(ctx.rng) for _ in range(ctx.pick(60, 900))]
    out += [drv_lmask.gen(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("bandmask"), ctx.pick(40, 900))]
    return [s for s in out if s]


def canaries(records, rng):
    out = []
    for r in rng.sample(records, min(10, len(records))):
        for p, d in (("im", 900), ("var", 7), ("mask", 1 << 27), ("nim", 900), ("nvar", 7), ("nmask", 1 << 27),
                     ("mf", 7), ("om", 1 << 27)):
            c = copy.deepcopy(r)
            if not c["after"][p]:
                continue
            g = rng.choice(c["after"][p])
            g[rng.randrange(c["nr"])][rng.randrange(c["nc"])] += d
            out.append(c)
    return out
