"""L13: runs on exposures (specification module LsstRun)."""
import copy
from .. import drv_lrun

ID, TRACE = "L13", "Trace_LsstRun"
CHUNK = 12
MODELS = {"quick": [("MC_LsstRun", "MC_LsstRun_quick.cfg")],
          "thorough": [("MC_LsstRun", "MC_LsstRun_thorough.cfg")]}
ASSUMPTIONS = ["centroids lie inside the image", "the sky matrix is conformal", "PSF fits answer as scripted",
               "metacal images identify their type (decided by L07)"]
execute = drv_lrun.execute


def scenarios(ctx):
    out = [drv_lrun.gen_run(ctx.rng) for _ in range(ctx.pick(60, 1000))]
    out += [drv_lrun.gen_run(ctx.rng, sk) for sk in ctx.sample(ctx.emitted("run"), ctx.pick(60, 1500))]
    out += [drv_lrun.gen_run(ctx.rng, dead=1 + i % 4) for i in range(ctx.pick(8, 60))]
    return out


def canaries(records, rng):
    out = []
    for r in rng.sample(records, min(30, len(records))):
        full = [o for o in r["out"] if o["rows"]]
        if not full:
            continue
        for how in ("ormask", "mfrac", "pflags", "T", "navg", "key", "lost", "g1", "products"):
            c = copy.deepcopy(r)
            o = rng.choice([o for o in c["out"] if o["rows"]])
            q = rng.choice(o["rows"])
            if how == "ormask":
                q[how] ^= 1
            elif how == "mfrac":
                q[how] += 20
            elif how == "pflags":
                q[how] = 0 if q[how] else 1
            elif how in ("T", "navg", "g1"):
                if q["pflags"]:
                    continue
                q[how] += 12
            elif how == "products":
                c["products_same"] = 0
            elif how == "key":
                c["keys"] = c["keys"][1:]
            else:
                o["rows"].remove(q)
            out.append(c)
    return out
