"""F07: fitting all PSFs (specification module Combine)."""
import copy
from .. import drv_combine

ID, TRACE = "F07", "Trace_Combine"
MODELS = {"quick": [("MC_Combine", "MC_Combine_quick.cfg")],
          "thorough": [("MC_Combine", "MC_Combine_thorough.cfg")]}
ASSUMPTIONS = ["a PSF fit answers with a result; flagged fits may be retried"]
execute = drv_combine.execute


def scenarios(ctx):
    return [drv_combine.gen_psfs(ctx.rng) for _ in range(ctx.pick(300, 3000))] + [
        drv_combine.gen_psfs(ctx.rng, sk)
        for sk in ctx.sample(ctx.emitted("psfs"), ctx.pick(300, 3000))]


def canaries(records, rng):
    out = []
    for r in rng.sample(records, 15):
        c = copy.deepcopy(r)
        c["outcome"] = "ok" if r["outcome"] != "ok" else "raise:BootPSFFailure"
        out.append(c)
        if r["fits"]:
            c = copy.deepcopy(r)
            c["stored"][c["fits"][0]["b"] - 1] = -1
            out.append(c)
    for r in [r for r in records if len({f["b"] for f in r["fits"]}) > 1][:6]:
        c = copy.deepcopy(r)
        c["fits"] = c["fits"][::-1]
        out.append(c)
    return out
