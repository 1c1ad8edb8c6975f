"""D01: stamps (specification module Detect)."""
import copy
from .. import drv_detect

ID, TRACE = "D01", "Trace_Detect"
MODELS = {"quick": [("MC_Detect", "MC_Detect_quick.cfg")],
          "thorough": [("MC_Detect", "MC_Detect_thorough.cfg")]}
ASSUMPTIONS = ["images up to 8x8 pixels, box sizes up to 24 pixels, up to 3 bands"]
execute = drv_detect.execute


def scenarios(ctx):
    out = [drv_detect.gen(ctx.rng, "list") for _ in range(ctx.pick(150, 1500))]
    out += [drv_detect.gen(ctx.rng, "detect") for _ in range(ctx.pick(40, 400))]
    return out + [drv_detect.gen(ctx.rng, "list", geom=g["x"])
                  for g in ctx.sample(ctx.emitted("stamp"), ctx.pick(150, 3000))]


def canaries(records, rng):
    out = []
    st = [r for r in records if r["op"] == "stamp" and r["outcome"] == "ok"]
    for r in rng.sample(st, 12):
        for key in ("im", "w", "bm", "no", "seg", "psf"):
            b = rng.randrange(len(r["stamps"]))
            if not r["stamps"][b][key]:
                continue
            c = copy.deepcopy(r)
            g = c["stamps"][b][key]
            g[rng.randrange(len(g))][rng.randrange(len(g))] += 1
            c["canary"] = key
            out.append(c)
    for r in [r for r in st if r["stamps"][0]["obs"]][:8]:
        c = copy.deepcopy(r)
        c["stamps"][0]["row"] += 1000
        out.append(c)
    return out
