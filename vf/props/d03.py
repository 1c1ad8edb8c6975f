"""D03: the detection image and catalogue (specification module Detect)."""
import copy
from .. import drv_detect

ID, TRACE = "D03", "Trace_Detect"
MODELS = {"quick": [("MC_Detect", "MC_Detect_quick.cfg")],
          "thorough": [("MC_Detect", "MC_Detect_thorough.cfg")]}
ASSUMPTIONS = ["every detection band has a pixel with positive weight",
               "the detector reports the scripted objects"]
execute = drv_detect.execute


def scenarios(ctx):
    return [dict(drv_detect.gen(ctx.rng, "detect"), stamps=False) for _ in range(ctx.pick(300, 3000))]


def canaries(records, rng):
    out = []
    for r in rng.sample(records, 12):
        for key in ("im", "mask", "var", "thresh"):
            c = copy.deepcopy(r)
            d = c["det"][0]
            if key == "mask":
                d["mask"][0][0] ^= 1
            elif key == "im":
                d["im"][-1][0] += 60
            else:
                d[key] += 50
            c["canary"] = key
            out.append(c)
        if r["cat"]:
            c = copy.deepcopy(r)
            c["cat"][0]["y"] += 250
            out.append(c)
    return out
