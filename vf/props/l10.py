"""L10: stamps (specification module Exposure)."""
import copy
from .. import drv_lexp

ID, TRACE = "L10", "Trace_Exposure"
MODELS = {"quick": [("MC_Exposure", "MC_Exposure_quick.cfg")],
          "thorough": [("MC_Exposure", "MC_Exposure_thorough.cfg")]}
ASSUMPTIONS = ["stand-in exposures and catalogues (env/lsst)", "peaks lie inside the exposure"]
execute = drv_lexp.execute


def scenarios(ctx):
    return [drv_lexp.gen_stamp(ctx.rng) for _ in range(ctx.pick(90, 1500))] + [
        drv_lexp.gen_stamp(ctx.rng, g["s"]) for g in ctx.sample(ctx.emitted("stamp"), ctx.pick(90, 1500))]


def canaries(records, rng):
    out = []
    st = [r for r in records if r["op"] == "stamp"]
    for r in [r for r in st if r["outcome"] == "ok" and r["box"]][:12]:
        for i in range(4):
            c = copy.deepcopy(r)
            c["box"][i] += 1
            out.append(c)
    for r in [r for r in st if r["outcome"] == "ok" and r["planes"]][:12]:
        c = copy.deepcopy(r)
        c["planes"][0]["im"][0][0] += 1
        out.append(c)
        c = copy.deepcopy(r)
        c["planes"] = c["planes"] + c["planes"]
        out.append(c)
    for r in [r for r in st if r["outcome"] != "ok"][:6]:
        c = copy.deepcopy(r)
        c["outcome"] = "ok"
        out.append(c)
    for r in [r for r in records if r["op"] == "stranger"][:3]:
        c = copy.deepcopy(r)
        c["outcome"] = "ok"
        out.append(c)
    return out
