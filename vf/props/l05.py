"""L05: model subtraction (specification module Subtract)."""
import copy
from .. import drv_sub

ID, TRACE = "L05", "Trace_Subtract"
CHUNK = 30
MODELS = {"quick": [("MC_Subtract", "MC_Subtract_quick.cfg")],
          "thorough": [("MC_Subtract", "MC_Subtract_thorough.cfg")]}
ASSUMPTIONS = ["a child's catalogue footprint holds its whole convolved model",
               "models are not negative", "contexts are nested and no source is opened twice"]
execute = drv_sub.execute


def scenarios(ctx):
    out = [drv_sub.gen_subtract(ctx.rng) for _ in range(ctx.pick(120, 2500))]
    out += [drv_sub.gen_subtract(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("subtract"), ctx.pick(120, 4000))]
    return out


def canaries(records, rng):
    out = []
    recs = [r for r in records if r["built"] == "ok"]
    for r in rng.sample(recs, min(40, len(recs))):
        c = copy.deepcopy(r)
        v = rng.choice(c["events"])
        how = rng.choice(["im", "orig", "planes"])
        if how == "planes":
            full = [v for v in c["events"] if v["t"] in ("stamp", "full") and v["planes"]]
            if not full:
                how = "im"
            else:
                v = rng.choice(full)
        if how == "im":
            g = rng.choice(v["im"])
            g[rng.randrange(len(g))][rng.randrange(len(g[0]))] += rng.choice([-1, 1])
        elif how == "orig":
            v["orig_same"] = 0
        else:
            g = rng.choice(v["planes"])
            g[rng.randrange(len(g))][rng.randrange(len(g[0]))] += 1
        out.append(c)
    return out
