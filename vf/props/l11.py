"""L11: iterated sky subtraction (specification module SkySub)."""
import copy
from .. import drv_sky

ID, TRACE = "L11", "Trace_SkySub"
MODELS = {"quick": [("MC_SkySub", "MC_SkySub_quick.cfg")],
          "thorough": [("MC_SkySub", "MC_SkySub_thorough.cfg")]}
ASSUMPTIONS = ["the background task takes one level out and records it",
               "failures are lsst RuntimeErrors or TaskErrors"]
execute = drv_sky.execute


def scenarios(ctx):
    out = [drv_sky.gen(ctx.rng) for _ in range(ctx.pick(400, 6000))]
    return out + [drv_sky.gen(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("skysub"), ctx.pick(400, 8000))]


def canaries(records, rng):
    out = []
    good = [r for r in records if r["outcome"] == "ok" and r["niter"] >= 1 and r["api"] != "one"]
    for r in rng.sample(good, min(12, len(good))):
        for how in ("im", "mask", "bg", "ev", "result", "none"):
            c = copy.deepcopy(r)
            k = rng.randrange(len(c["after"]))
            a = c["after"][k]
            if how in ("im", "mask"):
                g = a[how]
                g[rng.randrange(len(g))][rng.randrange(len(g[0]))] += 1
            elif how == "bg":
                done = c["seen"][k]["detects"] == c["niter"] and not any(f[0] == c["niter"] for f in c["faults"][k])
                if not done:
                    continue
                a["bg"] = [a["bg"][0] + 1]
            elif how == "ev":
                c["seen"][k]["ev"].append({"t": "detect", "thr": 4, "re": 0, "ign": []})
            elif how == "result":
                if c["api"] == "mbexp" or c["none"]:
                    continue
                c["result"] = ["band0", 99]
            else:
                if c["api"] == "mbexp" or not c["none"]:
                    continue
                c["none"] = 0
            out.append(c)
    return out
