"""L02: configuration of runs on exposures (specification module LsstRun)."""
import copy
from .. import drv_lrun

ID, TRACE = "L02", "Trace_LsstRun"
CHUNK = 12
MODELS = {"quick": [("MC_Override", "MC_Override_quick.cfg")],
          "thorough": [("MC_Override", "MC_Override_quick.cfg"), ("MC_LsstRun", "MC_LsstRun_thorough.cfg")]}
ASSUMPTIONS = ["the configuration library behaves as documented (env/lsst/pex/config)",
               "settings of the detection task other than the threshold are not settings of a run"]
execute = drv_lrun.execute


def scenarios(ctx):
    out = [drv_lrun.gen_override(ctx.rng) for _ in range(ctx.pick(200, 4000))]
    subsets = [s["names"] for s in ctx.emitted("settings")]
    out += [drv_lrun.gen_run(ctx.rng, None, s) for s in ctx.sample(subsets, ctx.pick(90, 256))]
    if ctx.tier == "thorough":
        for _ in range(4):
            out += [drv_lrun.gen_run(ctx.rng, None, s) for s in subsets]
    out += [drv_lrun.gen_reject(ctx.rng) for _ in range(ctx.pick(12, 200))]
    return out


def canaries(records, rng):
    out = []
    over = [r for r in records if r["op"] == "override"]
    for r in rng.sample(over, min(20, len(over))):
        for how in ("after", "dict", "fresh"):
            c = copy.deepcopy(r)
            if how == "dict":
                c["dict_same"] = 0
            elif how == "fresh":
                c["fresh"][rng.randrange(len(c["fresh"]))][1] += "'"
            else:
                if r["outcome"] != "ok":
                    continue
                c["after"][rng.randrange(len(c["after"]))][1] += "'"
            out.append(c)
    runs = [r for r in records if r["op"] == "run" and r["outcome"] == "ok"]
    for r in rng.sample(runs, min(20, len(runs))):
        for how in ("thr", "deblend", "sky", "types", "kernel", "size"):
            c = copy.deepcopy(r)
            if how == "thr":
                c["detects"][0]["thr"] += 100
            elif how == "deblend":
                c["deblends"][0] = "none"
            elif how == "sky":
                c["backgrounds"] = [] if c["backgrounds"] else ["g"]
            elif how == "types":
                c["keys"].append("zz")
            elif how == "kernel":
                c["detects"][-1]["kernel"] = "other"
            else:
                full = [o for o in c["out"] if o["rows"]]
                if not full:
                    continue
                full[0]["rows"][0]["size"] += 2
            out.append(c)
    return out
