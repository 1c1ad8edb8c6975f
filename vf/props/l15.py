"""L15: exposure-level runs depend on nothing but what they are given (specification module Session)."""
import copy
from .. import drv_lsess
from .m11 import _histories

ID, TRACE = "L15", "Trace_Session"
WORKERS = 3
MODELS = {"quick": [("MC_Session", "MC_Session_quick.cfg")],
          "thorough": [("MC_Session", "MC_Session_thorough.cfg")]}
ASSUMPTIONS = ["the library draws from the generators it is handed (and from the process-wide one if handed none)",
               "sky subtraction changes the exposures it is given (L11)", "one thread"]
execute = drv_lsess.execute


def scenarios(ctx):
    every = [s for s in ctx.emitted("session") if not any(x[0] == "nested" for x in s["steps"])]
    return [drv_lsess.gen(ctx.rng, s) for s in ctx.sample(every, ctx.pick(70, 1000))]


def canaries(records, rng):
    out = []
    hs = [h for h in _histories(records) if any(r["op"] == "go" and r["out"] == "dict" for r in h)]
    rng.shuffle(hs)
    for h in hs[:12]:
        for how in ("dig", "end", "out", "raised", "inputs", "glob", "gens", "held"):
            c = copy.deepcopy(h)
            go = [r for r in c if r["op"] == "go"]
            r = rng.choice(go)
            if how == "dig":
                r["dig"] = r["dig"][:-1] + ["other"]
            elif how == "end":
                r["end"] = "other"
            elif how == "raised":
                r["raised"] = 1
            elif how == "out":
                r["out"] = "dict" if r["out"] == "none" else "none"
            elif how == "inputs":
                k = rng.choice(sorted(set(r["st"]["inputs"]) - set(r["may"])))
                r["st"]["inputs"][k] = "other"
            elif how == "glob":
                r["st"]["glob"] = "other"
            elif how == "gens":
                others = [g for g in r["st"]["gens"]
                          if g not in {q["gen"] for q in c if q["op"] == "new" and q["inst"] == r["inst"]}]
                if not others:
                    continue
                r["st"]["gens"][rng.choice(others)] = "other"
            else:
                had = set(c[[q is r for q in c].index(True) - 2]["st"]["held"])     # the instance's "new" record
                if not had:
                    continue
                r["st"]["held"][sorted(had)[0]] = ["other"]
            c[0]["canary"] = c[-1]["canary"] = how
            out.append(c)
    return out
