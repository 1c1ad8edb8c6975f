"""L09: coadds of exposures (specification module Exposure)."""
import copy
from .. import drv_lexp

ID, TRACE = "L09", "Trace_Exposure"
MODELS = {"quick": [("MC_Exposure", "MC_Exposure_quick.cfg")],
          "thorough": [("MC_Exposure", "MC_Exposure_thorough.cfg")]}
ASSUMPTIONS = ["stand-in exposures (env/lsst)", "where only some exposures are usable the mean is over those, with their own or the total weight"]
execute = drv_lexp.execute


def scenarios(ctx):
    return [drv_lexp.gen_coadd(ctx.rng) for _ in range(ctx.pick(350, 4000))] + [
        drv_lexp.gen_coadd(ctx.rng, s) for s in ctx.sample(ctx.emitted("coadd"), ctx.pick(250, 4000))]


def canaries(records, rng):
    out = []
    ok = [r for r in records if r["outcome"] == "ok"]
    for r in [r for r in ok if r["op"] == "coadd"][:15]:
        for k in ("im", "var", "psf"):
            c = copy.deepcopy(r)
            c["out"][k][0][0] += 50
            out.append(c)
        c = copy.deepcopy(r)
        c["out"]["mask"][0][0] ^= 2**11
        out.append(c)
    for r in [r for r in ok if r["op"] == "mbcoadd"][:8]:
        for k in ("im", "w", "psf"):
            c = copy.deepcopy(r)
            c["out"][k][0][0] += 50
            out.append(c)
    for r in [r for r in ok if r["op"] == "split"][:8]:
        for k in ("out", "ormasks", "newmasks", "bands"):
            c = copy.deepcopy(r)
            c[k] = c[k][:-1] + [[[9]]]
            out.append(c)
    return out
