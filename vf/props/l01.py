"""L01: full configurations (specification module Config)."""
import copy
from .. import drv_config

ID, TRACE = "L01", "Trace_Config"
MODELS = {"quick": [("MC_Config", "MC_Config_quick.cfg")],
          "thorough": [("MC_Config", "MC_Config_thorough.cfg")]}
ASSUMPTIONS = ["entries are replaced or removed, values are not modified in place",
               "the detect, metacal and pgauss sections are dictionaries"]
execute = drv_config.execute


def scenarios(ctx):
    return [{"op": "missing"}] + [drv_config.gen_hist(ctx.rng) for _ in range(ctx.pick(300, 4000))] + [
        {"op": "hist", "steps": g["steps"]} for g in ctx.sample(ctx.emitted("hist"), ctx.pick(500, 8000))]


def canaries(records, rng):
    out = []
    records = [r for r in records if r["op"] == "config"]
    ok = [r for r in records if r["act"] == "get" and r["outcome"] == "ok"]
    for r in rng.sample(ok, 10):
        c = copy.deepcopy(r)
        c["after"][-1] = c["after"][-1][:-1]
        out.append(c)
        c = copy.deepcopy(r)
        c["after"][0] = c["after"][0] + [["detect", "extra", "1"]]
        out.append(c)
        c = copy.deepcopy(r)
        c["defaults"] = c["defaults"][1:]
        out.append(c)
    for r in [r for r in records if r["outcome"] != "ok"][:5]:
        c = copy.deepcopy(r)
        c["outcome"] = "ok"
        out.append(c)
    return out
