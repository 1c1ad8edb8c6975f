"""L12: selection of bands and trimming (specification module Exposure)."""
import copy
from .. import drv_lexp

ID, TRACE = "L12", "Trace_Exposure"
MODELS = {"quick": [("MC_Exposure", "MC_Exposure_quick.cfg")],
          "thorough": [("MC_Exposure", "MC_Exposure_thorough.cfg")]}
ASSUMPTIONS = []
execute = drv_lexp.execute


def scenarios(ctx):
    out = [dict(op="select", bands=g["s"]["bands"], want=g["s"]["want"]) for g in ctx.emitted("select")]
    out += [dict(op="trim", h=g["s"]["h"], w=g["s"]["w"], dt=ctx.rng.choice(["f4", "f8", "i4"])) for g in ctx.emitted("trim")]
    for _ in range(ctx.pick(150, 2000)):
        n = ctx.rng.randint(1, 6)
        names = ctx.rng.sample(["u", "g", "r", "i", "z", "y"], n)
        out.append(dict(op="select", bands=names, want=[
            ctx.rng.choice(names if ctx.rng.random() < 0.95 else ["w"]) for _ in range(ctx.rng.randint(0, n + 1))]))
        out.append(dict(op="trim", h=ctx.rng.randint(1, 40), w=ctx.rng.randint(1, 40)))
        out.append(dict(op="trim", h=2 * ctx.rng.randint(1, 20) + 1, w=2 * ctx.rng.randint(1, 20) + 1))
    return out


def canaries(records, rng):
    out = []
    for r in [r for r in records if r["op"] == "select" and r["outcome"] == "ok" and r["out"]][:10]:
        c = copy.deepcopy(r)
        c["out"] = c["out"][1:]
        out.append(c)
    for r in [r for r in records if r["op"] == "trim" and r["outcome"] == "ok" and r["h"] > 2][:10]:
        c = copy.deepcopy(r)
        c["out"]["h"] -= 1
        out.append(c)
        c = copy.deepcopy(r)
        c["out"]["c"] += 1
        out.append(c)
    for r in [r for r in records if r["outcome"] != "ok"][:6]:
        c = copy.deepcopy(r)
        c["outcome"] = "ok"
        out.append(c)
    return out
