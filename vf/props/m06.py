"""M06: the configured fitters run with their settings (specification module Fitters)."""
import copy
from .. import drv_fit

ID, TRACE = "M06", "Trace_Fitters"
MODELS = {"quick": [("MC_Fitters", "MC_Fitters_quick.cfg")],
          "thorough": [("MC_Fitters", "MC_Fitters_thorough.cfg")]}
ASSUMPTIONS = ["the measurement library answers as scripted; see env/",
               "one band combination per run, so that calls are attributable"]
execute = drv_fit.run


def scenarios(ctx):
    out = [drv_fit.gen(ctx.rng, i) for i in range(ctx.pick(90, 900))]
    for i, s in enumerate(ctx.sample(ctx.emitted("fitters"), ctx.pick(60, 900))):
        out.append(drv_fit.gen(ctx.rng, 3 * i, [dict(f) for f in s["fs"]]))
    return out


def canaries(records, rng):
    out = []
    ok = [r for r in records if r["outcome"] == "ok" and r["calls"]]
    for r in ok[:5]:
        c = copy.deepcopy(r)
        c["calls"] = c["calls"][1:]
        c["canary"] = "call missing"
        out.append(c)
        c = copy.deepcopy(r)
        c["calls"][0]["fwhm"] += 30
        c["canary"] = "weight size"
        out.append(c)
    return out
