"""M03: PSF fits and metacal once per image set"""
from .. import drv_mdet
from . import _mdet

ID, TRACE = "M03", "Trace_Pipeline"
MODELS = _mdet.MODELS
ASSUMPTIONS = _mdet.ASSUMPTIONS
execute = drv_mdet.execute


def scenarios(ctx):
    rng = ctx.rng
    out = []
    for sk in ctx.sample(ctx.emitted("pipe"), ctx.pick(70, 500)):
        out.append(drv_mdet.gen(rng, skeleton=sk))
    for _ in range(ctx.pick(50, 300)):
        nb = rng.randint(2, 3)
        out.append(drv_mdet.gen(
            rng, nband=nb, colour=rng.randint(0, 1),
            combs=[rng.sample(range(nb), rng.randint(1, nb)) for _ in range(rng.randint(2, 3))],
            psf_fail=[(rng.randint(0, 2), rng.randint(0, 2))] if rng.random() < 0.3 else None,
            mcal_fail=[rng.randint(1, 2)] if rng.random() < 0.3 else []))
    return out


def canaries(records, rng):
    import copy
    out = []
    hs = [h for h in _mdet.histories(records) if any(r["op"] == "metacal" for r in h)]
    for h in hs[:5]:
        h = copy.deepcopy(h)
        i = [j for j, r in enumerate(h) if r["op"] == "metacal"][-1]
        out.append(h[:i] + [dict(h[i], canary="twice")] + h[i:])
        h2 = copy.deepcopy(h)
        i = [j for j, r in enumerate(h2) if r["op"] == "psf"][-1]
        j = [j for j, r in enumerate(h2) if r["op"] == "metacal"][-1]
        if j > i:
            h2[i], h2[j] = h2[j], h2[i]
            h2[-1]["canary"] = "metacal before PSF fit"
            out.append(h2)
    return out
