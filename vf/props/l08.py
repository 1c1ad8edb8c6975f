"""L08: exposures and observations (specification module Exposure)."""
import copy
from .. import drv_lexp

ID, TRACE = "L08", "Trace_Exposure"
MODELS = {"quick": [("MC_Convert", "MC_Convert_quick.cfg")],
          "thorough": [("MC_Convert", "MC_Convert_thorough.cfg")]}
ASSUMPTIONS = ["stand-in exposures and sky maps (env/lsst); sky maps are affine",
               "an observation made from a whole exposure has at least one usable pixel"]
execute = drv_lexp.execute


def scenarios(ctx):
    sk = ctx.emitted("chain")
    ctx.rng.shuffle(sk)
    return [drv_lexp.gen_chain(ctx.rng, s) for s in sk[:ctx.pick(400, 6000)]] + \
        [drv_lexp.gen_conv(ctx.rng) for _ in range(ctx.pick(700, 9000))]


def canaries(records, rng):
    out = []
    ok = [r for r in records if r["outcome"] == "ok"]
    for r in [r for r in ok if r["op"] in ("exp2obs", "extract")][:15]:
        for k in ("im", "w", "bm"):
            c = copy.deepcopy(r)
            c["obs"][k][0][-1] += 3
            out.append(c)
        c = copy.deepcopy(r)
        c["obs"]["jac"]["cen"].reverse()
        c["obs"]["jac"]["cen"][0] += 1
        out.append(c)
        c = copy.deepcopy(r)
        c["obs"]["psfpos"][1] += 8
        out.append(c)
    for r in [r for r in ok if r["op"] == "chain"][:15]:
        for k in ("im", "var", "mask", "w", "bm", "om"):
            if k in r["out"]:
                c = copy.deepcopy(r)
                c["out"][k][-1][0] = 77777
                out.append(c)
    for r in [r for r in ok if r["op"] in ("obs2exp", "round")][:15]:
        for k in ("im", "var", "mask"):
            c = copy.deepcopy(r)
            c["out"][k][-1][0] = 77777
            out.append(c)
    for r in [r for r in records if r["outcome"] != "ok"][:6]:
        c = copy.deepcopy(r)
        c["outcome"] = "raise:TypeError"
        out.append(c)
    return out
