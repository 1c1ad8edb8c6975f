"""Measurement of source lists (specification: Measure)."""
import contextlib
import io
import numpy as np
from .num import fx, grid, igrid, NAN, INF
from .drv_lexp import exposure, freeze, raised, source, PS
from .drv_sub import base_exp, build_models, frame, gen_subtract

PSF = [[1, 2, 1], [2, 4, 2], [1, 2, 1]]
SHIFT = 500


def run_measure(scn):
    import ngmix
    from lsst.afw.image import Mask, ExposureF
    from lsst.afw.table import SourceCatalog
    from lsst.geom import Point2D
    from metadetect.lsst import util
    from metadetect.lsst.measure import measure, get_detect_and_deblend_task
    det = int(Mask.getPlaneBitMask("DETECTED"))
    names = scn["names"]
    xs = [exposure(e, PSF, b) for e, b in zip(scn["exps"], names)]
    mb = util.get_mbexp(xs)
    wcs = mb.singles[0].getWcs()
    cat = SourceCatalog()
    cen = {}
    for s in scn["cat"]:
        cat.append(source(fpbox=s["fp"], peak=s["peak"], sid=s["id"], more=s.get("more", ()), deblend_nChild=s["nchild"]))
        cen[s["id"]] = s["cen"]
    mask = [[v | (det if d else 0) for v, d in zip(r, q)] for r, q in zip(scn["mask"], scn["det"])]
    d0 = dict(scn["exps"][0], mask=mask, im=[[1 for _ in r] for r in mask])
    detexp = exposure(d0, PSF, "det")
    frz = [freeze(x) for x in mb.singles] + [freeze(detexp)]

    def centroid(src, exp):
        c = cen[src.getId()]
        if c:
            p = Point2D(c[0] / PS, c[1] / PS)
            src.setCentroid(p)
            src.setCoord(wcs.pixelToSky(p))
        else:
            src.setCentroid(Point2D(np.nan, np.nan))

    def mom(fitter, obs, kw):
        r, c = obs.jacobian.get_cen()
        return {"flags": 0, "flagstr": "", "sums": np.array([0, 0, 0, 0, 1.0, 1.0]), "sums_cov": np.eye(6),
                "sums_norm": 1.0, "flux": float(obs.image.sum()), "flux_flags": 0,
                "flux_err": (round(r * PS) + SHIFT) * 2000.0 + round(c * PS) + SHIFT}
    failed, seen = [], []

    def gauss(fitter, obs):
        from ngmix.fitting import default_result
        o = ngmix.observation.get_mb_obs(obs)
        sums = [fx(ol[0].image.sum()) for ol in o]
        if sums not in seen:
            seen.append(sums)
        # a stamp whose fit fails does so every time
        how = scn["faults"].get(str(seen.index(sums) + 1), "")
        if how and sums not in failed:
            failed.append(sums)
        if how == "raise":
            raise RuntimeError("planted")
        res = default_result(obs)
        if how == "flag":
            res["flags"] = 2**9
        return res
    ngmix.env.HOOKS.update(lsst_measure=centroid, mom=mom, gauss=gauss)
    shear = sorted(names.index(b) for b in scn["shear"])
    rec = {"op": "measure", "fr": frame(scn["exps"][0]), "obs": scn["obs"], "exps": [e["im"] for e in scn["exps"]],
           "vars": [e["var"] for e in scn["exps"]], "ker": scn["ker"], "mask": mask, "detected": det,
           "ids": [s["id"] for s in scn["srcs"]] if scn["models"] else [],
           "models": [s["models"] for s in scn["srcs"]] if scn["models"] else [],
           "cat": [{k: s[k] for k in ("id", "nchild", "peak", "cen")} for s in scn["cat"]],
           "w": {"m": scn["exps"][0]["m"], "x": scn["exps"][0]["wx"], "y": scn["exps"][0]["wy"]},
           "size": scn["size"], "shear": shear, "rows": []}
    try:
        task = get_detect_and_deblend_task(rng=np.random.RandomState(scn["seed"]))
        config = {"pgauss": {"fwhm": 2.0}, "stamp_size": scn["size"],
                  "shear_bands": [names[i] for i in shear] if scn["shear"] else scn["noshear"]}
        with contextlib.redirect_stdout(io.StringIO()):
            out = measure(mbexp=mb, detexp=detexp, sources=cat if scn["cat"] or scn["empty"] == "cat" else [],
                          model_data=build_models(scn, cat) if scn["models"] else None, meas_task=task.meas,
                          config=config, rng=np.random.RandomState(scn["seed"]))
        if not scn["shear"]:
            rec["shear"] = list(range(len(names)))
        rec["outcome"] = "none" if out is None else "ok"
        for r in (out if out is not None else []):
            rec["rows"].append(row(r))
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["failed"] = failed
    rec["same"] = int([freeze(x) for x in mb.singles] + [freeze(detexp)] == frz)
    return [rec]


def row(r):
    err = [float(v) for v in np.atleast_1d(r["pgauss_band_flux_err"])]
    dec = [[int(v) % 2000 - SHIFT, int(v) // 2000 - SHIFT] if v == v else [NAN, NAN] for v in err]
    names = r.dtype.names
    val = [n for n in names if n.split("_")[0] in ("gauss", "pgauss") and "flags" not in n and "flux" not in n]
    fl = [n for n in names if n.split("_")[0] in ("gauss", "pgauss") and "flags" in n]
    return {"pos": [fx(r["col"], PS), fx(r["row"], PS)], "off": [fx(r["col_diff"], PS), fx(r["row_diff"], PS)],
            "sky": [fx((r["ra"] - 20) * 3600, 32), fx((r["dec"] - 1) * 3600, 32)],
            "origin": [int(r["col0"]), int(r["row0"])], "size": int(r["stamp_size"]), "bmask": int(r["bmask"]),
            "sflags": int(r["stamp_flags"]), "gflags": int(r["gauss_flags"]), "pflags": int(r["pgauss_flags"]),
            "pflux": [fx(v) for v in np.atleast_1d(r["pgauss_band_flux"])], "pcen": dec,
            "gflux": [fx(v) for v in np.atleast_1d(r["gauss_band_flux"])],
            "attempt": [int(v) for n in fl for v in np.ravel(r[n])],
            "values": [fx(v, 1000) for n in val for v in np.ravel(r[n])]}


def execute(scn):
    return {"measure": run_measure}[scn["op"]](scn)


# ------------------------------------------------------------------ scenarios
def gen_measure(rng, sk=None):
    s = gen_subtract(rng)
    if sk:
        n = sum(k != "parent" for k in sk["kinds"])
        while len(s["srcs"]) < max(n, 1):
            s = gen_subtract(rng)
        drop = {x["id"] for x in s["srcs"][n:]}
        s["srcs"], s["cat"] = s["srcs"][:n], [c for c in s["cat"] if c["id"] not in drop and c["nchild"] == 0]
        s["groups"] = [list(range(n))] if n else []
    fr = frame(s["exps"][0])
    x, y, w, h = fr
    size = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7])
    half = size // 2
    parents = [] if sk else [c for c in s["cat"] if c["nchild"]]
    kids = [c for c in s["cat"] if c["nchild"] == 0]
    kinds = [k for k in sk["kinds"] if k != "parent"] if sk else [
        rng.choice(["ok", "ok", "ok", "edge", "zero", "nocen", "badfit"]) for _ in kids]
    m = rng.choice([[4, 0, 0, 4], [4, 1, -1, 4], [-1, 0, 0, 1], [0, 3, -3, 0], [2, 1, 1, -3]])
    wx, wy = rng.randint(-20, 120), rng.randint(-20, 40)
    for e in s["exps"]:
        e.update(m=m, wx=wx, wy=wy)
        for r in e["var"]:
            for j in range(w):
                if rng.random() < 0.15:
                    r[j] = rng.choice([0, -4, NAN, INF, INF])
    used, bad, ids = set(), {}, []
    for c, k in zip(kids, kinds):
        fx0, fy0, fw, fh = c["fp"]
        # a footprint which may grow to where the peak should be
        for _ in range(40):
            if k == "edge":
                p = [rng.randint(x, x + w - 1), rng.randint(y, y + h - 1)]
                inside = p[0] - half >= x and p[1] - half >= y and p[0] + half < x + w and p[1] + half < y + h
                if inside and half:
                    continue
            elif w > 2 * half and h > 2 * half:
                p = [rng.randint(x + half, x + w - half - 1), rng.randint(y + half, y + h - half - 1)]
            else:
                p = [rng.randint(x, x + w - 1), rng.randint(y, y + h - 1)]
            cen = [] if k == "nocen" else [8 * p[0] + rng.randint(-11, 11), 8 * p[1] + rng.randint(-11, 11)]
            pos = tuple(cen or [8 * p[0], 8 * p[1]])
            if pos not in used:
                break
        else:
            cen = [8 * p[0] + rng.randint(-99, 99), 8 * p[1] + rng.randint(-99, 99)]
            pos = tuple(cen)
        used.add(pos)
        x0, y0 = min(fx0, p[0]), min(fy0, p[1])
        x1, y1 = max(fx0 + fw, p[0] + 1), max(fy0 + fh, p[1] + 1)
        c.update(fp=[x0, y0, x1 - x0, y1 - y0], peak=p, cen=cen)
        if k == "zero":
            b = rng.randrange(len(s["exps"]))
            inf = rng.random() < 0.3
            for Y in range(max(y, p[1] - half), min(y + h, p[1] + half + 1)):
                for X in range(max(x, p[0] - half), min(x + w, p[0] + half + 1)):
                    s["exps"][b]["var"][Y - y][X - x] = INF if inf and rng.random() < 0.9 else rng.choice([0, -4, NAN])
    for _ in range(sum(k == "parent" for k in sk["kinds"]) if sk else 0):
        parents.append({"id": 90 + len(parents), "fp": [x, y, 2, 2], "nchild": rng.randint(1, 3), "peak": [x, y]})
    for c in parents:
        c["cen"] = [8 * c["peak"][0] + 3, 8 * c["peak"][1] + 1]
    nocat = not sk and rng.random() < 0.08
    cat = parents if nocat and rng.random() < 0.7 else [] if nocat else parents + kids
    rng.shuffle(cat)
    models = sk["models"] if sk else rng.randint(0, 1)
    if nocat or not kids:
        models = 0
    nfit = len(kids)
    faults = {}
    for i, k in enumerate(kinds):
        if k == "badfit":
            faults[str(rng.randint(1, nfit))] = rng.choice(["raise", "flag"])
    names = s["names"]
    shear = rng.sample(names, rng.randint(0, len(names)))
    s.update(op="measure", size=size, cat=cat, models=models, faults=faults, shear=shear,
             noshear=rng.choice([None, []]), empty=rng.choice(["cat", "list"]), seed=rng.randint(0, 10**6),
             mask=[[rng.choice([0, 0, 1, 2, 64, 1 << 20, 3, -2**31, 1 - 2**31]) for _ in range(w)] for _ in range(h)],
             det=[[rng.randint(0, 1) for _ in range(w)] for _ in range(h)])
    del s["events"]
    return s
