"""F06: combined and list results (specification module Combine)."""
import copy
from .. import drv_combine

ID, TRACE = "F06", "Trace_Combine"
MODELS = {"quick": [("MC_Combine", "MC_Combine_quick.cfg")],
          "thorough": [("MC_Combine", "MC_Combine_thorough.cfg")]}
ASSUMPTIONS = ["at least one result is combined; fitters have different names, as configurations must"]
execute = drv_combine.execute


def scenarios(ctx):
    out = [drv_combine.gen_combine(ctx.rng) for _ in range(ctx.pick(300, 3000))]
    out += [drv_combine.gen_combine(ctx.rng, sk)
            for sk in ctx.sample(ctx.emitted("combine"), ctx.pick(300, 3000))]
    return out + [drv_combine.gen_list(ctx.rng) for _ in range(ctx.pick(120, 1200))]


def canaries(records, rng):
    out = []
    comb = [r for r in records if r["op"] == "combine" and r["out"]["n"] > 0 and len(r["parts"]) > 1]
    for r in rng.sample(comb, min(10, len(comb))):
        c = copy.deepcopy(r)
        col = rng.choice(sorted(c["out"]["vals"]))
        c["out"]["vals"][col][-1] += 1
        out.append(c)
        c = copy.deepcopy(r)
        c["out"]["n"] -= 1
        out.append(c)
    lists = [r for r in records if r["op"] == "list" and len(set(r["got"])) > 1]
    for r in lists[:8]:
        c = copy.deepcopy(r)
        c["got"] = c["got"][::-1] if c["got"] != c["got"][::-1] else c["got"][1:]
        out.append(c)
    for r in rng.sample([r for r in records if r["op"] == "combine"
                         and r["outcome"] != "ok"], 5):
        c = copy.deepcopy(r)
        c["outcome"] = "ok"
        out.append(c)
    return out
