"""P01: processing flags (specification module Flags)."""
import copy
from .. import drv_config

ID, TRACE = "P01", "Trace_Flags"
MODELS = {"quick": [("MC_Flags", "MC_Flags_quick.cfg")],
          "thorough": [("MC_Flags", "MC_Flags_thorough.cfg")]}
ASSUMPTIONS = ["flag values below 2^31, as integers or 32-bit integers"]
execute = drv_config.execute


def scenarios(ctx):
    vals = [g["bits"] for g in ctx.sample(ctx.emitted("value"), ctx.pick(600, 6000))]
    vals += [[b for b in range(31) if ctx.rng.random() < 0.4] for _ in range(ctx.pick(100, 1000))]
    vals += [[], list(range(31)), [30]] + [[b] for b in range(31)]
    return [{"op": "table"}] + [{"op": "str", "values": vals[i:i + 50]} for i in range(0, len(vals), 50)]


def canaries(records, rng):
    out = []
    for r in records:
        if r["op"] == "table":
            for f in (lambda c: c["consts"][0].update(bit=c["consts"][1]["bit"]),
                      lambda c: c["consts"][2].update(bit=-1), lambda c: c["consts"][3].update(bit=5),
                      lambda c: c["consts"][4].update(has=[]), lambda c: c.update(libsame=0),
                      lambda c: c["consts"].pop()):
                c = copy.deepcopy(r)
                f(c)
                out.append(c)
    for r in rng.sample([r for r in records if r["op"] == "str" and r["parts"]], 10):
        c = copy.deepcopy(r)
        c["parts"] = c["parts"][1:]
        out.append(c)
    return out
