"""M05: colour dependent runs measure each object on its colour's image set"""
from .. import drv_mdet
from . import _mdet

ID, TRACE = "M05", "Trace_Pipeline"
MODELS = _mdet.MODELS
ASSUMPTIONS = _mdet.ASSUMPTIONS
execute = drv_mdet.execute


def scenarios(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(75, 500)):
        out.append(drv_mdet.gen(
            rng, colour=1,
            psf_fail=[(rng.randint(0, 3), rng.randint(0, 3))] if rng.random() < 0.3 else None,
            mcal_fail=[rng.randint(1, 3)] if rng.random() < 0.3 else []))
    for sk in ctx.sample([s for s in ctx.emitted("pipe") if any(map(any, s["keys"]))],
                         ctx.pick(60, 400)):
        out.append(drv_mdet.gen(rng, skeleton=sk))
    return out + [s for s in drv_mdet.api_scenarios(rng) if s["api"] == "joint_colour"]


def canaries(records, rng):
    import copy

    def other(row):
        row["flux"] = [v + 10000 if 0 < v < 1000000 else v for v in row["flux"]]
        return any(0 < v < 1000000 for v in row["flux"])
    out = _mdet.row_canaries(
        [r for r in records], rng, {"set": other}, 4)
    out = [h for h in out if h[0].get("op") == "begin" and h[0]["cfg"]["colour"]]
    for h in _mdet.histories(records):
        if sum(r["op"] == "color" for r in h) > 1 and len(out) < 10:
            h = copy.deepcopy(h)
            i = [j for j, r in enumerate(h) if r["op"] == "color"][0]
            h[i]["flux"] = [7] * len(h[i]["flux"])
            h[-1]["canary"] = "fluxes"
            out.append(h)
    return out
