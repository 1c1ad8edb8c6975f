"""F01: flags of band-averaged measurements (specification module Wavg)."""
import copy
from .. import drv_wavg

ID, TRACE = "F01", "Trace_Wavg"
MODELS = {"quick": [("MC_Wavg", "MC_Wavg_quick.cfg")],
          "thorough": [("MC_Wavg", "MC_Wavg_quick.cfg"), ("MC_Wavg", "MC_Wavg_thorough.cfg")]}
ASSUMPTIONS = ["moments answers are scripted; variances are not negative and uncorrelated",
               "up to 4 bands, stamps up to 5x5"]
execute = drv_wavg.run
TROUBLE = (0.25, 0.5)


def scenarios(ctx):
    return ([drv_wavg.gen(ctx.rng, TROUBLE[i % 2]) for i in range(ctx.pick(500, 6000))]
            + modelled(ctx, ctx.pick(400, 4000)))


def modelled(ctx, n):
    """measurements the design model reached"""
    r = ctx.rng
    return [{"bands": s["bands"], "shear": s["shear"], "symm": s["symm"], "reg": s["reg"],
             "kind": r.choice(["wmom", "ksigma", "pgauss"]), "explicit": r.randint(0, 1),
             "via_list": r.randint(0, 1)} for s in ctx.sample(ctx.emitted("wavg"), n)]


def canaries(records, rng):
    out = []
    for r in rng.sample(records, 12):
        for key in ("pf", "of", "flags"):
            c = copy.deepcopy(r)
            c["res"][key] ^= 2**20
            c["canary"] = key
            out.append(c)
    return [c for c in out if all(b["obj"]["norm"] for b in c["bands"])]
