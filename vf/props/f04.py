"""F04: coadding bands (specification module Coadd)."""
import copy
from .. import drv_joint

ID, TRACE = "F04", "Trace_Joint"
MODELS = {"quick": [("MC_Coadd", "MC_Coadd_quick.cfg")],
          "thorough": [("MC_Coadd", "MC_Coadd_thorough.cfg")]}
ASSUMPTIONS = ["at least one band is selected, and no band twice", "up to 4 bands, stamps up to 6x6"]
execute = drv_joint.execute


def scenarios(ctx):
    out = [drv_joint.gen_coadd(ctx.rng) for _ in range(ctx.pick(500, 6000))]
    for sk in ctx.sample(ctx.emitted("coadd"), ctx.pick(200, 4000)):
        out.append(drv_joint.gen_coadd(ctx.rng, sk))
    return out


def canaries(records, rng):
    out = []
    good = [r for r in records if r["out"]["given"]]
    for r in rng.sample(good, min(12, len(good))):
        for key in ("im", "w", "psf", "mf", "no", "bm", "om"):
            if not r["out"][key]:
                continue
            c = copy.deepcopy(r)
            c["out"][key][0][-1] += 40
            c["canary"] = key
            out.append(c)
    for r in rng.sample(good, min(8, len(good))):
        c = copy.deepcopy(r)
        m = c["out"]["meta"]
        if m:
            m[0]["v"] += 1
            c["canary"] = "meta"
            out.append(c)
    for r in rng.sample(records, 10):
        c = copy.deepcopy(r)
        c["flags"] ^= 2**rng.choice([25, 28])
        c["canary"] = "flags"
        out.append(c)
    return out
