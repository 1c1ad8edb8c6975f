"""M07: unsheared positions (specification module ShearPos)."""
import numpy as np
from ..num import fxs

ID = "M07"
TRACE = "Trace_ShearPos"
MODELS = {"quick": [("MC_ShearPos", "MC_ShearPos_quick.cfg")],
          "thorough": [("MC_ShearPos", "MC_ShearPos_thorough.cfg")]}
ASSUMPTIONS = ["shear steps with rational shear matrices plus the default 0.01",
               "positions compared to 0.003 pixel"]
STEPS = {"3/5": 3.0 / 5, "4/5": 4.0 / 5, "5/13": 5.0 / 13, "1/100": 0.01}
TYPES = ["noshear", "1p", "1m", "2p", "2m", "1p_psf", "1m_psf", "2p_psf", "2m_psf"]


def scenarios(ctx):
    out = []
    for s in ctx.emitted("point"):
        out.append({"kind": "map", "dims": s["dims"], "jac": s["jac"],
                    "step": s["step"], "rows": [s["start"][0]],
                    "cols": [s["start"][1]], "types": TYPES})
    rng = ctx.rng
    for _ in range(ctx.pick(60, 600)):
        while True:
            m = [rng.randint(-3, 3) for _ in range(4)]
            if abs(m[0] * m[3] - m[1] * m[2]) in (1, 2, 3, 4, 6):
                break
        jd = rng.choice([1, 2, 4])
        n = rng.choice([0, 1, 1, 2, 3, 5])
        out.append({
            "kind": "map",
            "dims": [rng.randint(1, 24), rng.randint(1, 24)],
            "jac": {"vr": m[0], "vc": m[1], "ur": m[2], "uc": m[3], "jd": jd,
                    "row0": [rng.randint(-20, 40), 2], "col0": [rng.randint(-20, 40), 2]},
            "step": rng.choice(["3/5", "4/5", "5/13", "1/100"]),
            "rows": [rng.randint(-10, 60) for _ in range(n)],
            "cols": [rng.randint(-10, 60) for _ in range(n)],
            "types": TYPES})
    out.append({"kind": "map", "dims": [5, 6], "step": "3/5", "rows": [2], "cols": [3],
                "jac": {"vr": 1, "vc": 0, "ur": 0, "uc": 1, "jd": 4,
                        "row0": [0, 1], "col0": [0, 1]},
                "types": ["3p", "1P", "", "p1", "noshear_psf"]})
    try:
        from .. import drv_mdet
    except ImportError:
        return out
    out += drv_mdet.shearpos_runs(ctx)
    return out


def _jac(j):
    import ngmix
    d = float(j["jd"])
    return ngmix.Jacobian(
        row=j["row0"][0] / j["row0"][1], col=j["col0"][0] / j["col0"][1],
        dvdrow=j["vr"] / d, dvdcol=j["vc"] / d, dudrow=j["ur"] / d, dudcol=j["uc"] / d)


def execute(scn):
    if scn["kind"] == "run":
        from .. import drv_mdet
        return drv_mdet.shearpos_records(scn)
    import ngmix
    from metadetect import shearpos
    jac = _jac(scn["jac"])
    dims = tuple(scn["dims"])
    recs = []
    for t in scn["types"]:
        for op in ("shear", "unshear"):
            for via in ("plain", "obs", "default"):
                if via == "default" and scn["step"] != "1/100":
                    continue
                rows = np.array(scn["rows"], dtype="f8") / 2
                cols = np.array(scn["cols"], dtype="f8") / 2
                r0, c0 = rows.copy(), cols.copy()
                kw = {} if via == "default" else {"step": STEPS[scn["step"]]}
                try:
                    if via == "obs":
                        obs = ngmix.Observation(
                            np.zeros(dims), weight=np.ones(dims), jacobian=jac)
                        f = getattr(shearpos, op + "_positions_obs")
                        o = f(rows, cols, t, obs, **kw)
                    else:
                        f = getattr(shearpos, op + "_positions")
                        o = f(rows, cols, t, jac, dims, **kw)
                    outcome, orows, ocols = "ok", fxs(o[0], 1000), fxs(o[1], 1000)
                except Exception as e:
                    outcome, orows, ocols = "raise:" + type(e).__name__, [], []
                recs.append({
                    "op": op, "via": via, "type": t, "step": scn["step"],
                    "jac": scn["jac"], "dims": scn["dims"], "rows": scn["rows"],
                    "cols": scn["cols"], "outcome": outcome, "orows": orows,
                    "ocols": ocols,
                    "inputs_same": int(np.array_equal(rows, r0) and np.array_equal(cols, c0))})
    return recs


def canaries(records, rng):
    out = []
    ok = [r for r in records if r["op"] in ("shear", "unshear") and r["outcome"] == "ok"
          and r["type"] in ("1p", "2m") and r["orows"]]
    for r in rng.sample(ok, min(6, len(ok))):
        c = dict(r, canary="shifted")
        c["orows"] = [r["orows"][0] + 50] + r["orows"][1:]
        out.append(c)
        c = dict(r, canary="dropped")
        c["ocols"] = []
        out.append(c)
    for r in [r for r in records if r["op"] == "row"][:3]:
        out.append(dict(r, canary="shifted", orow=r["orow"] + 40))
    return out
