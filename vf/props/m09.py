"""M09: masked fraction columns are Gaussian averages over the box"""
from .. import drv_mdet
from . import _mdet

ID, TRACE = "M09", "Trace_Pipeline"
MODELS = _mdet.MODELS
ASSUMPTIONS = _mdet.ASSUMPTIONS
execute = drv_mdet.execute


def scenarios(ctx):
    rng = ctx.rng
    return [drv_mdet.gen(rng, style=rng.choice(["plain", "wvar"]), nobj=rng.randint(1, 4),
                         step=rng.choice(["3/5", "3/5", "3/5", "4/5", "1/100"]))
            for _ in range(ctx.pick(120, 600))] + [
        drv_mdet.gen_mf(rng) for _ in range(ctx.pick(120, 1500))]


def _inc(key, d):
    def f(row):
        row[key] += d
        return True
    return f


def _flip(row):
    row["mf"] = 2000 if row["mf"] == 1000 else 1000 + row["mf"]
    return True


def canaries(records, rng):
    out = _mdet.row_canaries(records, rng, {"mf": _flip}, 4)
    for r in [r for r in records if r["op"] == "mf" and r["out"] and r["objs"][0]["box"] == 0
              or r["op"] == "mf" and r["fwhm"] < 0 and any(0 < v < 900 for v in r["out"][:1])
              and r["objs"][0]["r"] < r["nrow"] and r["objs"][0]["c"] < r["ncol"]][:6]:
        r = dict(r, out=[r["out"][0] + 30] + r["out"][1:], canary="direct")
        out.append([r])
    return out
