"""F05: symmetrised weights (specification module Stamps)."""
import copy
from .. import drv_joint

ID, TRACE = "F05", "Trace_Joint"
MODELS = {"quick": [("MC_Coadd", "MC_Coadd_quick.cfg")],
          "thorough": [("MC_Coadd", "MC_Coadd_thorough.cfg")]}
ASSUMPTIONS = ["square stamps up to 6x6, weights not negative"]
execute = drv_joint.execute


def scenarios(ctx):
    # every 3x3 (thorough: 4x4) pattern, and random stamps with all planes
    out = [drv_joint.gen_sym(ctx.rng, sk["w"])
           for sk in ctx.sample(ctx.emitted("sym"), ctx.pick(512, 66000))]
    return out + [drv_joint.gen_sym(ctx.rng) for _ in range(ctx.pick(300, 4000))]


def canaries(records, rng):
    out = []
    for r in rng.sample(records, 20):
        for key in ("out", "again"):
            c = copy.deepcopy(r)
            n = len(c[key])
            i, j = rng.randrange(n), rng.randrange(n)
            c[key][i][j] = 0 if c[key][i][j] else 3
            out.append(c)
    return out
