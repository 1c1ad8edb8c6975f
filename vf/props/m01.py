"""M01: a run measures nothing or reports every requested type"""
from .. import drv_mdet
from . import _mdet

ID, TRACE = "M01", "Trace_Pipeline"
MODELS = _mdet.MODELS
ASSUMPTIONS = _mdet.ASSUMPTIONS
execute = drv_mdet.execute


def scenarios(ctx):
    rng = ctx.rng
    out = [s for s in drv_mdet.api_scenarios(rng) if s["api"] != "joint_colour"]
    for gate in ("noweight", "nodet", "mfrac"):
        for one in (0, 1):
            for _ in range(ctx.pick(8, 40)):
                out.append(drv_mdet.gen(rng, gate=gate, but_one=one, style="plain"))
    for _ in range(ctx.pick(30,150)):
        out.append(drv_mdet.gen(rng, mcal_fail=[0] if rng.random() < 0.3 else [],
                                nobj=rng.choice([0, 1, 2])))
    for sk in ctx.sample(ctx.emitted("pipe"), ctx.pick(40, 200)):
        out.append(drv_mdet.gen(rng, skeleton=sk))
    return out


def canaries(records, rng):
    import copy
    out = []
    hs = [h for h in _mdet.histories(records) if h[-1]["op"] == "end"]
    for h in hs[:6]:
        h = copy.deepcopy(h)
        e = h[-1]
        e["outcome"] = "dict" if e["outcome"] == "none" else "none"
        e["canary"] = "outcome"
        out.append(h)
    for h in [x for x in hs if x[-1]["outcome"] == "dict"][:4]:
        h = copy.deepcopy(h)
        h[-1]["keys"] = h[-1]["keys"][1:]
        h[-1]["canary"] = "keys"
        out.append(h)
    for r in [r for r in records if r["op"] == "api"]:
        out.append(dict(r, outcome="ok", canary="api"))
    return out
