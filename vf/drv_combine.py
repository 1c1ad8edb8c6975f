"""Combined fit results, list fits and PSF fits (specification: Combine)."""
import copy
import numpy as np
from .num import fx, fxs
from . import drv_joint, drv_wavg


# ------------------------------------------------------------------ combine
def table(part, rng):
    from metadetect import fitting
    if part["none"]:
        return None
    one = fitting.get_wavg_output_struct(part["nband"], part["model"], shear_bands=[0])
    a = np.zeros(part["n"], dtype=one.dtype)
    for c in a.dtype.names:
        if c == "shear_bands":
            a[c] = part["sb"]
        else:
            a[c] = rng.randint(1, 1000, size=a[c].shape)
    return a


def describe(a):
    if a is None:
        return {"none": 1, "n": 0, "cols": [], "vals": {"_": []}, "sb": []}
    vals = {c: fxs(a[c]) for c in a.dtype.names if c != "shear_bands"}
    return {"none": 0, "n": int(a.shape[0]), "cols": list(a.dtype.names), "vals": vals,
            "sb": [str(x) for x in a["shear_bands"]] if "shear_bands" in a.dtype.names else []}


def run_combine(scn):
    from metadetect import fitting
    rng = np.random.RandomState(scn["seed"])
    parts = [table(p, rng) for p in scn["parts"]]
    before = [describe(p) for p in parts]
    rec = {"op": "combine", "parts": before, "out": describe(None)}
    try:
        rec["out"] = describe(fitting.combine_fit_res(parts))
        rec["outcome"] = "ok"
    except Exception as x:
        rec["outcome"] = "raise:" + type(x).__name__
    rec["inputs_same"] = int([describe(p) for p in parts] == before)
    return [rec]


# ------------------------------------------------------------------ lists
def run_list(scn):
    import ngmix
    from ngmix import env
    from metadetect import fitting
    env.reset()
    mbs = []
    for o in scn["objs"]:
        mb = drv_joint.build(o["bands"])
        mbs.append(mb)

    def code(obs):
        return float(obs.image[1, 1])

    def mom(fitter, obs, kw):
        s = [0, 0, 0, 0, code(obs) if obs.has_psf() else 1.0, 1.0]
        return {"flags": 0, "flagstr": "", "sums": np.array(s), "sums_cov": np.eye(6),
                "flux": 1.0, "flux_err": 1.0, "flux_flags": 0}

    def ans(obs):
        return {"flags": 0, "T_flags": 0, "T": code(obs), "T_err": 1.0, "e": np.zeros(2),
                "g": np.zeros(2), "e_cov": np.eye(2), "g_cov": np.eye(2), "s2n": 1.0}

    def gauss(fitter, obs):
        if isinstance(obs, ngmix.Observation):
            return ans(obs)
        n = len(obs)
        return dict(ans(obs[0][0]), flux=np.ones(n) if n > 1 else 1.0,
                    flux_err=np.ones(n) if n > 1 else 1.0)
    env.HOOKS.update(mom=mom, admom=ans, gauss=gauss)
    kind = scn["kind"]
    rec = {"op": "list", "want": [o["bands"][0]["im"][1][1] * 1000 if o["ok"] else -1
                                  for o in scn["objs"]], "none": 0, "got": []}
    try:
        if kind in ("am", "gauss"):
            res = fitting.fit_mbobs_list_joint(
                mbobs_list=mbs, fitter_name=kind, bmask_flags=2, rng=np.random.RandomState(1),
                coadd=bool(scn["coadd"]))
        else:
            res = fitting.fit_mbobs_list_wavg(
                mbobs_list=mbs, fitter=drv_wavg.fitter_of(kind), bmask_flags=2,
                fwhm_reg=0.8 if scn["coadd"] else 0)
        rec["outcome"] = "ok"
        if res is None:
            rec["none"] = 1
        else:
            rec["got"] = [fx(r[kind + "_T"], 1000) if r[kind + "_flags"] == 0 else -1 for r in res]
    except Exception as x:
        rec["outcome"] = "raise:%s:%s" % (type(x).__name__, str(x)[:60])
    env.reset()
    return [rec]


# ------------------------------------------------------------------ PSFs
def run_psfs(scn):
    from ngmix import env
    from metadetect import fitting
    env.reset()
    bands = []
    for i, n in enumerate(scn["bands"]):
        bd = copy.deepcopy(scn["band"])
        bd["n"] = n
        bands.append(bd)
    mb = drv_joint.build(bands)
    before = drv_joint.freeze(mb)
    fits, counts = [], {}

    def admom(obs):
        b = obs.meta.get("band", -2)
        k = counts.get(b, 0)
        counts[b] = k + 1
        ans = scn["answers"][b] if 0 <= b < len(scn["answers"]) else [0]
        f = ans[min(k, len(ans) - 1)]
        fits.append({"b": b + 1, "flags": f, "id": len(fits) + 1})
        return {"flags": f, "T": 1.0, "e": np.zeros(2), "id": len(fits)}
    env.HOOKS["admom"] = admom
    rec = {"op": "psfs", "bands": scn["bands"]}
    try:
        fitting.fit_all_psfs(mb, np.random.RandomState(3))
        rec["outcome"] = "ok"
    except Exception as x:
        rec["outcome"] = "raise:" + type(x).__name__
    rec["fits"] = fits
    rec["stored"] = []
    for ol in mb:
        r = ol[0].psf.meta.get("result") if len(ol) else None
        rec["stored"].append(int(r.get("id", -2)) if r is not None else -1)
    rec["inputs_same"] = int(drv_joint.freeze(mb) == before)
    env.reset()
    return [rec]


def execute(scn):
    return {"combine": run_combine, "list": run_list, "psfs": run_psfs}[scn["op"]](scn)


# ------------------------------------------------------------------ scenarios
MODELS = ["wmom", "am", "gauss", "ksigma", "pgauss", "wmom_reg0.80"]


def gen_combine(rng, sk=None):
    if sk:
        parts = [{"none": p["none"], "n": p["n"], "sb": p["sb"] or [""] * p["n"]} for p in sk["parts"]]
    else:
        k, n = rng.randint(1, 4), rng.randint(0, 4)
        sb = ["%d" % rng.randint(0, 12) for _ in range(n)]
        parts = [{"none": 0, "n": n, "sb": list(sb)} for _ in range(k)]
        t = rng.random()
        p = rng.choice(parts)
        if t < 0.15:
            p["none"] = 1
        elif t < 0.3:
            m = rng.randint(0, 4)
            p.update(n=m, sb=(sb + ["3"] * m)[:m])
        elif t < 0.4 and n:
            p["sb"] = list(p["sb"])
            p["sb"][rng.randrange(n)] = "99"
        elif t < 0.45:
            for q in parts:
                q["none"] = 1
    nb = rng.randint(1, 3)
    ms = rng.sample(MODELS, len(parts))
    if sk:
        for i, p in enumerate(sk["parts"]):
            for j in range(i):
                if not p["none"] and set(p["cols"]) & set(sk["parts"][j]["cols"]) - {"shear_bands"}:
                    ms[i] = ms[j]
    elif len(ms) > 1 and rng.random() < 0.08:
        ms[-1] = ms[rng.randrange(len(ms) - 1)]
    for p, m in zip(parts, ms):
        p.update(model=m, nband=nb)
    return {"op": "combine", "parts": parts, "seed": rng.randrange(10**6)}


def gen_list(rng):
    nb, objs = rng.randint(1, 3), []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        bands = [drv_joint.band(rng, 3, "full", ["psf", "bm"]) for _ in range(nb)]
        code = rng.randint(1, 200)
        for b in bands:
            b["im"][1][1] = code
            b["bm"] = [[0] * 3 for _ in range(3)]
        ok = rng.random() < 0.8
        if not ok:
            bands[rng.randrange(nb)]["n"] = 0
        objs.append({"bands": bands, "ok": ok})
    return {"op": "list", "objs": objs, "kind": rng.choice(["wmom", "pgauss", "am", "gauss"]),
            "coadd": rng.randint(0, 1)}


def gen_psfs(rng, sk=None):
    band = drv_joint.band(rng, 3, "full", ["psf", "bm"])
    if sk:
        answers = []
        for i in range(len(sk["bands"])):
            a = [f["flags"] for f in sk["fits"] if f["b"] == i + 1]
            answers.append(a or [0])
        return {"op": "psfs", "bands": sk["bands"], "answers": answers, "band": band}
    nb = rng.randint(1, 4)
    bands = [1 if rng.random() < 0.93 else rng.choice([0, 2]) for _ in range(nb)]
    answers = []
    for _ in range(nb):
        t = rng.random()
        if t < 0.6:
            answers.append([0])
        elif t < 0.8:
            answers.append([rng.choice([4, 8])] * rng.randint(1, 9) + [0])
        else:
            answers.append([rng.choice([4, 8, 1])])
    return {"op": "psfs", "bands": bands, "answers": answers, "band": band}
