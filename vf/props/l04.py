"""L04: measurement of source lists (specification module Measure)."""
import copy
from .. import drv_lmeas

ID, TRACE = "L04", "Trace_Measure"
CHUNK = 30
MODELS = {"quick": [("MC_Measure", "MC_Measure_quick.cfg")],
          "thorough": [("MC_Measure", "MC_Measure_thorough.cfg")]}
ASSUMPTIONS = ["positions of childless sources differ", "a child's catalogue footprint holds its whole convolved model",
               "the order of the rows is free"]
execute = drv_lmeas.execute


def scenarios(ctx):
    out = [drv_lmeas.gen_measure(ctx.rng) for _ in range(ctx.pick(150, 3000))]
    out += [drv_lmeas.gen_measure(ctx.rng, sk)
            for sk in ctx.sample(ctx.emitted("measure"), ctx.pick(150, 3000))]
    return out


def canaries(records, rng):
    out = []
    recs = [r for r in records if r["rows"]]
    for r in rng.sample(recs, min(40, len(recs))):
        for how in ("drop", "double", "sky", "off", "bmask", "sflags", "pflux", "pcen", "same", "origin"):
            c = copy.deepcopy(r)
            q = rng.choice(c["rows"])
            if how == "drop":
                c["rows"].remove(q)
            elif how == "double":
                c["rows"].append(q)
            elif how == "same":
                c["same"] = 0
            elif how in ("sky", "off", "origin", "pflux"):
                q[how][rng.randrange(len(q[how]))] += 1
            elif how == "pcen":
                if q["sflags"]:
                    continue
                q[how][0][0] += 1
            elif how == "bmask":
                q[how] ^= 1
            else:
                q[how] = 1 << 20 if q[how] == 0 else 0
            out.append(c)
    return out
