"""L07: metacal on exposures (specification module McalExp)."""
import copy
from .. import drv_lmcal

ID, TRACE = "L07", "Trace_McalExp"
CHUNK = 25
MODELS = {"quick": [("MC_McalExp", "MC_McalExp_quick.cfg")],
          "thorough": [("MC_McalExp", "MC_McalExp_thorough.cfg")]}
ASSUMPTIONS = ["images, shears and convolutions of galsim are exact to 0.003 counts",
               "pixel scale is the same over one exposure"]
execute = drv_lmcal.execute


def scenarios(ctx):
    out = [drv_lmcal.gen_mcal(ctx.rng) for _ in range(ctx.pick(60, 1200))]
    out += [drv_lmcal.gen_mcal(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("mcal"), ctx.pick(60, 2500))]
    out += [drv_lmcal.gen_moments(ctx.rng) for _ in range(ctx.pick(20, 400))]
    return out


def canaries(records, rng):
    out = []
    full = [r for r in records if r["op"] == "mcal" and r["outcome"] == "ok" and r["out"]]
    for r in rng.sample(full, min(10, len(full))):
        for how in ("im", "var", "mask", "ker", "band", "same", "keys", "frame"):
            c = copy.deepcopy(r)
            col = rng.choice(rng.choice(c["out"])["cols"])
            if how in ("im", "var", "mask", "ker"):
                g = col[how]
                g[rng.randrange(len(g))][rng.randrange(len(g[0]))] += 9
            elif how == "band":
                col["band"] = "u"
            elif how == "same":
                c["same"] = 0
            elif how == "keys":
                c["keys"] = c["keys"][:-1] + ["zz"]
            else:
                col["fr"][0] += 1
            out.append(c)
    for r in [r for r in records if r["op"] == "mcmom" and r["rows"]][:8]:
        for k, d in (("out", 200), ("nout", -200)):
            c = copy.deepcopy(r)
            rng.choice(c["rows"])[k]["m"][rng.randrange(3)] += d
            out.append(c)
    return out
