"""D02: box sizes and corners (specification module Detect)."""
import copy
from .. import drv_detect

ID, TRACE = "D02", "Trace_Detect"
MODELS = {"quick": [("MC_Detect", "MC_Detect_quick.cfg")],
          "thorough": [("MC_Detect", "MC_Detect_thorough.cfg")]}
ASSUMPTIONS = ["the detector reports the scripted objects; radii in quarter pixels"]
execute = drv_detect.execute


def sigma(rng):
    """boxes decided by the size of the objects, not by their extent"""
    s = dict(drv_detect.gen(rng, "detect"), stamps=False)
    s["meds"].update(type="sigma_size", min=rng.choice([2, 2, 3]), max=256, sfac=rng.randint(1, 6))
    s["objs"] = [drv_detect.obj(rng, s["nr"], s["nc"], k) for k in range(3)]
    for o in s["objs"]:
        o["b"] = rng.randint(1, o["a"])
        o["dy"], o["dx"] = rng.randint(0, 2), rng.randint(0, 2)
    return s


def scenarios(ctx):
    out = [sigma(ctx.rng) for _ in range(ctx.pick(100, 2000))]
    out += [dict(drv_detect.gen(ctx.rng, "detect"), stamps=False) for _ in range(ctx.pick(250, 3000))]
    return out + [dict(drv_detect.gen(ctx.rng, "detect", boxsk=g["x"]), stamps=False)
                  for g in ctx.sample(ctx.emitted("box"), ctx.pick(200, 3000))]


def canaries(records, rng):
    out = []
    for r in rng.sample([r for r in records if r["cat"]], 15):
        for key, d in (("box", 2), ("r0", 1), ("c0", -1), ("c1", 1)):
            c = copy.deepcopy(r)
            c["cat"][-1][key] += d
            out.append(c)
    return out
