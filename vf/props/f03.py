"""F03: joint measurements (specification module Joint)."""
import copy
from .. import drv_joint

ID, TRACE = "F03", "Trace_Joint"
MODELS = {"quick": [("MC_Joint", "MC_Joint_quick.cfg")],
          "thorough": [("MC_Joint", "MC_Joint_thorough.cfg")]}
ASSUMPTIONS = ["PSF and object fits answer as scripted; if several PSFs are fitted separately they "
               "fail together", "up to 4 bands, stamps up to 5x5"]
execute = drv_joint.execute


def scenarios(ctx):
    out = [drv_joint.gen_joint(ctx.rng) for _ in range(ctx.pick(350, 4000))]
    for sk in ctx.sample(ctx.emitted("joint"), ctx.pick(250, 4000)):
        out.append(drv_joint.gen_joint(ctx.rng, sk))
    return out


def canaries(records, rng):
    out = []
    for r in rng.sample([r for r in records if r["outcome"] == "ok"], 14):
        for key in ("flags", "pf", "of", "T", "pT", "flux"):
            c = copy.deepcopy(r)
            v = c["res"][key]
            if key == "flux":
                v[0] = v[0] + 700 if v[0] < 10**9 else 5
            else:
                c["res"][key] = v ^ 2**18 if key in ("flags", "pf", "of") else (
                    v + 700 if v < 10**9 else 5)
            c["canary"] = key
            out.append(c)
    return out
