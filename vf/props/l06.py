"""L06: noise replacement (specification module Subtract)."""
import copy
from .. import drv_sub

ID, TRACE = "L06", "Trace_Subtract"
CHUNK = 30
MODELS = {"quick": [("MC_Subtract", "MC_Subtract_quick.cfg")],
          "thorough": [("MC_Subtract", "MC_Subtract_thorough.cfg")]}
ASSUMPTIONS = ["sources open at the same time do not overlap",
               "the stack's NoiseReplacer behaves as documented"]
execute = drv_sub.execute


def scenarios(ctx):
    out = [drv_sub.gen_replace(ctx.rng) for _ in range(ctx.pick(150, 2500))]
    out += [drv_sub.gen_replace(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("subtract"), ctx.pick(150, 4000))]
    out += [drv_sub.gen_noise(ctx.rng) for _ in range(ctx.pick(60, 600))]
    return [s for s in out if s]


def canaries(records, rng):
    out = []
    recs = [r for r in records if r["op"] == "replace" and r["built"] == "ok"]
    for r in rng.sample(recs, min(30, len(recs))):
        c = copy.deepcopy(r)
        v = rng.choice(c["events"])
        if v["t"] == "end" and rng.random() < 0.5:
            v["exact"] = 0
        else:
            g = rng.choice(v["im"])
            g[rng.randrange(len(g))][rng.randrange(len(g[0]))] += 1
        out.append(c)
    for r in [r for r in records if r["op"] == "noiseimage" and r["n"] >= 200][:6]:
        c = copy.deepcopy(r)
        c["ms2"] = rng.choice([c["ms2"] // 2, c["ms2"] * 2])
        out.append(c)
        c = copy.deepcopy(r)
        c["same"] = 0
        out.append(c)
    return out
