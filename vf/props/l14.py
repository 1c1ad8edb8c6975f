"""L14: detection and deblending of exposures (specification module ExpDetect)."""
import copy
from .. import drv_ldet

ID, TRACE = "L14", "Trace_ExpDetect"
MODELS = {"quick": [("MC_ExpDetect", "MC_ExpDetect_quick.cfg")],
          "thorough": [("MC_ExpDetect", "MC_ExpDetect_quick.cfg"), ("MC_ExpDetect", "MC_ExpDetect_thorough.cfg")]}
ASSUMPTIONS = ["the detection and deblending algorithms themselves are the library's",
               "a threshold is given either to the maker of the task or in its settings, not both"]
execute = drv_ldet.execute


def scenarios(ctx):
    out = [drv_ldet.gen(ctx.rng) for _ in range(ctx.pick(300, 5000))]
    return out + [drv_ldet.gen(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("expdetect"), ctx.pick(500, 8000))]


def canaries(records, rng):
    out = []
    good = [r for r in records if r["op"] == "detdeb" and r["outcome"] == "ok"]
    full = [r for r in good if any(v["t"] == "deblend" for v in r["seen"]["ev"]) and r["found"] > 0]
    for r in rng.sample(full, min(14, len(full))):
        for how in ("steps", "twice", "cfg", "meas", "deb", "im", "mask", "cls", "schema", "ids", "seen", "det",
                    "model", "noise", "config", "same"):
            c = copy.deepcopy(r)
            ev = c["seen"]["ev"]
            if how == "steps":
                ev.pop(rng.randrange(len(ev)))
            elif how == "twice":
                ev.append(copy.deepcopy(rng.choice(ev)))
            elif how in ("cfg", "meas", "deb"):
                d = c["seen"]["cfg"] if how == "cfg" else c["measuring" if how == "meas" else "deblending"]
                d[rng.choice(sorted(d))] = "wrong"
            elif how in ("im", "mask"):
                g = c["seen"]["input"][how]
                g[rng.randrange(len(g))][rng.randrange(len(g[0]))] += 400
            elif how == "cls":
                c["seen"]["cls"] = "ExposureD"
            elif how == "schema":
                c["seen"]["schema"] = 0
            elif how == "ids":
                c["ids"] = c["ids"][:-1]
            elif how == "seen":
                v = rng.choice([v for v in ev if "ids" in v])
                v["ids"] = v["ids"] + [55]
            elif how == "det":
                c["det"] = "other"
            elif how == "model":
                c["model"] = "deblended" if c["model"] == "none" else "none"
            elif how == "noise":
                c["noise"] = 0
            elif how == "config":
                c["same_config"] = 0
            else:
                if len(c["exps"]) == 1 and not c["dbl"]:
                    continue
                c["same"] = 0
            out.append(c)
    return out
