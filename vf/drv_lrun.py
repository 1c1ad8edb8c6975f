"""Runs on exposures and their configuration (specification: LsstRun)."""
import contextlib
import copy
import io
import numpy as np
from .num import fx, grid, NAN, INF
from .drv_lexp import exposure, raised, source, PosPsf, PS, VS
from .drv_lmcal import blob, plane_exp, install_hook
from .drv_sub import build_models, frame

ALL = ["noshear", "1p", "1m", "2p", "2m"]
DEFAULTS = {"stamp_size": 49, "deblender": "sdss", "shear_bands": None, "thresh": 500, "types": ["noshear", "1p", "1m"],
            "reconv": "fitgauss", "subtract_sky": 0, "fwhm": 200}


def config_of(scn):
    """the dictionary of the settings that are given"""
    s, c = scn["set"], {}
    phot = scn["api"] == "phot"
    for k, v in s.items():
        if k in ("stamp_size", "deblender", "shear_bands"):
            c[k] = copy.deepcopy(v)
        elif k == "subtract_sky":
            c[k] = bool(v)
        elif k == "thresh":
            c["detect"] = {"thresh" if phot or scn["alias"] else "thresholdValue": v / 100}
        elif k == "types":
            c.setdefault("metacal", {})["types"] = list(v)
        elif k == "reconv":
            c.setdefault("metacal", {})["reconv_type"] = v
        elif k == "fwhm":
            c["pgauss"] = {"fwhm": v / 100}
    r = scn["reject"]
    if r == "unknown_names":
        where = scn["where"] if not phot else [w for w in scn["where"] if w != "metacal"]
        d = c
        for w in where:
            d = d.setdefault(w, {})
        d["thresholdValu" if scn["where"] == ["detect"] else "nosuch"] = 1
    elif r == "unknown_types":
        c.setdefault("metacal", {})["types"] = ["noshear", "1x"]
    elif r == "unknown_deblenders":
        c["deblender"] = "sextractor"
    elif r == "unknown_kernels":
        c.setdefault("metacal", {})["reconv_type"] = "dilate"
    return c


def sky_pattern(shape):
    h, w = shape
    yy, xx = np.mgrid[0:h, 0:w]
    return 40 * np.exp(-((xx - w / 2)**2 + (yy - h / 2)**2) / 9)


def run_run(scn):
    import ngmix
    from ngmix import env
    from lsst.afw.table import SourceCatalog
    from lsst.geom import Point2D
    from lsst.pipe.base import Struct
    from metadetect.lsst import metacal_exposures as me
    from metadetect.lsst import util
    from metadetect.lsst.metadetect import run_metadetect
    from metadetect.lsst.photometry import run_photometry
    install_hook()
    names, phot = scn["names"], scn["api"] == "phot"
    nb = len(names)
    eff = dict(DEFAULTS, **scn["set"])
    types = ["phot"] if phot else list(dict.fromkeys(eff["types"]))

    def bands(key):
        xs = [exposure(e, p, b) for e, p, b in zip(scn[key], scn["psfs"], names)]
        mb = util.get_mbexp(xs)
        for x, p in zip(mb.singles, scn["psfs"]):
            x.setPsf(PosPsf(p))
        return mb
    mb = bands("exps")
    noise = bands("noise")
    wcs = mb.singles[0].getWcs()
    fr = frame(scn["exps"][0])

    # what detection may be shown
    def combine(m):
        return m.singles[0].image.array if nb == 1 else util.coadd_exposures(m.singles).image.array
    refs = []
    m2 = bands("exps")
    if eff["subtract_sky"]:
        for x in m2.singles:
            x.image.array[:, :] -= sky_pattern(x.image.array.shape)
    usable = all(any(v not in (NAN, INF) and v > 0 for r in e["var"] for v in r) for e in scn["exps"])
    if not usable:
        pass
    elif phot:
        refs.append(("phot", "none", combine(m2)))
    elif not scn["reject"]:
        stats = np.zeros(nb, dtype=[("e1", "f8"), ("e2", "f8"), ("T", "f8")])
        good = all(p["flags"] == 0 and p["e1"]**2 + p["e2"]**2 < 1e6 for p in scn["psf"])
        for b, p in enumerate(scn["psf"]):
            stats[b] = (p["e1"] / 1000, p["e2"] / 1000, p["T"] / 1000)
        for kernel in (["fitgauss", "gauss"] if good else ["gauss"]):
            d, _ = me.get_metacal_mbexps_fixnoise(mbexp=m2, noise_mbexp=bands("noise"), types=types,
                                                  psf_stats=stats if kernel == "fitgauss" else None)
            refs += [(t, kernel, combine(d[t])) for t in types]
    rec = {"op": "run", "api": scn["api"], "names": names, "fr": fr, "m": scn["exps"][0]["m"], "reject": scn["reject"],
           "vars": [e["var"] for e in scn["exps"]], "psf": scn["psf"], "mfrac": scn["mfrac"],
           "ormasks": scn["ormasks"], "stats_asked": scn["stats_asked"], "detects": [], "labels": 0, "keys": [],
           "out": [], "stats": {}, "srcs": [{"t": t, "cat": [{k: s[k] for k in ("id", "nchild", "peak", "cen")}
                                                                 for s in scn["srcs"][t]]} for t in types],
           "set": {"stamp_size": eff["stamp_size"], "deblender": eff["deblender"],
                   "shear_bands": list(eff["shear_bands"] or []), "thresh": eff["thresh"], "types": types,
                   "reconv": eff["reconv"], "subtract_sky": eff["subtract_sky"], "fwhm": eff["fwhm"]}}
    state = {"type": types[0], "back": False}
    backs, fwhms = [], []

    def identify(im):
        errs = sorted((float(np.abs(im - r).max()), i) for i, (_, _, r) in enumerate(refs) if r.shape == im.shape)
        if not errs or errs[0][0] > 2e-3:
            return "?", "?"
        t, kernel, _ = refs[errs[0][1]]
        if any(k2 != kernel and t2 == t and float(np.abs(im - r).max()) < 2e-3 for t2, k2, r in refs):
            kernel = "any"      # the two kernels cannot be told apart
        return t, kernel

    def detect(task, table, exp):
        thr = fx(task.config.thresholdValue, 100)
        if state["back"]:
            state["back"] = False
            rec["detects"].append({"kind": "sky", "thr": thr, "type": "", "kernel": ""})
            return Struct(sources=SourceCatalog(table))
        t, kernel = identify(exp.image.array.astype("f8"))
        state["type"] = t if t in scn["srcs"] else types[0]
        rec["detects"].append({"kind": "main", "thr": thr, "type": t, "kernel": kernel})
        cat = SourceCatalog(table)
        for s in scn["srcs"][state["type"]]:
            cat.append(source(fpbox=s["fp"], peak=s["peak"], sid=s["id"], deblend_nChild=s["nchild"]))
        return Struct(sources=cat)

    def background(task, exp):
        b = exp.getFilter().bandLabel
        if b not in backs:
            exp.image.array[:, :] -= sky_pattern(exp.image.array.shape)
        backs.append(b)
        state["back"] = True
        exp.getMetadata()["BGMEAN"] = 0.0

    def scarlet(task, mexp, mdec, merged):
        kids = [s for s in scn["srcs"][state["type"]] if s["nchild"] == 0]
        d = {"mbands": names, "names": names, "ker": [[[1]]] * nb, "obs": fr, "groups": [[i] for i in range(len(kids))],
             "srcs": [{"id": s["id"], "models": [{"box": s["peak"] + [1, 1], "m": [[1]]}] * nb} for s in kids]}
        return Struct(scarletModelData=build_models(d, merged), deblendedCatalog=merged)

    def measure(src, exp):
        c = [s["cen"] for s in scn["srcs"][state["type"]] if s["id"] == src.getId()][0]
        if c:
            p = Point2D(c[0] / PS, c[1] / PS)
            src.setCentroid(p)
            src.setCoord(wcs.pixelToSky(p))
        else:
            src.setCentroid(Point2D(np.nan, np.nan))

    def admom(obs):
        from ngmix import admom
        for p, im in zip(scn["psf"], scn["psfs"]):
            if obs.image.shape == np.shape(im) and np.allclose(obs.image, im, rtol=1e-5, atol=1e-9):
                r = admom.default_result(obs)
                r.update(flags=p["flags"], flagstr="planted" if p["flags"] else "",
                         e=np.array([p["e1"], p["e2"]]) / 1000, T=p["T"] / 1000)
                return r
        return admom.default_result(obs)

    def mom(fitter, obs, kw):
        return {"flags": 0, "flagstr": "", "sums": np.array([0, 0, 0, 0, 1.0, 1.0]), "sums_cov": np.eye(6),
                "sums_norm": 1.0, "flux": 1.0, "flux_flags": 0, "flux_err": float(fitter.fwhm)}
    env.LOG.clear()
    env.HOOKS.update(lsst_detect=detect, lsst_background=background, lsst_scarlet=scarlet, lsst_measure=measure,
                     admom=admom, mom=mom)
    kw = {}
    if scn["mfrac"]:
        kw["mfrac_mbexp"] = util.get_mbexp([
            exposure(dict(e, im=(np.array(m) / 8).tolist()), p, b)
            for e, m, p, b in zip(scn["exps"], scn["mfrac"], scn["psfs"], names)])
    if scn["ormasks"]:
        kw["ormasks"] = [np.array(m, dtype="i4") for m in scn["ormasks"]]
    kept = [x for x in kw.get("ormasks", [])] + [x.image.array for x in kw["mfrac_mbexp"].singles] if scn["mfrac"] else \
        list(kw.get("ormasks", []))
    kept0 = copy.deepcopy(kept)
    cfg = config_of(scn)
    cfg0 = copy.deepcopy(cfg)
    if cfg or scn["given"]:
        kw["config"] = cfg
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if phot:
                out = run_photometry(mbexp=mb, rng=np.random.RandomState(scn["seed"]), **kw)
                out = {"phot": out}
            else:
                if scn["stats_asked"]:
                    kw["get_psf_stats"] = True
                out = run_metadetect(mbexp=mb, noise_mbexp=noise, rng=np.random.RandomState(scn["seed"]), **kw)
        rec["outcome"] = "ok"
        rec["keys"] = [str(k) for k in out]
        for k in out:
            if k == "psf_stats":
                p = out[k]
                rec["stats"] = {"flags": int(p["flags"]), "navg": int(p["navg"]), "T": fx(p["T"], 1000),
                                "g1": fx(p["g1"], 1000), "g2": fx(p["g2"], 1000), "e1": fx(p["e1"], 1000),
                                "e2": fx(p["e2"], 1000), "bands": [
                                    {"e1": fx(q["e1"], 1000), "e2": fx(q["e2"], 1000), "T": fx(q["T"], 1000),
                                     "w": fx(q["wgt"] / p["perband"]["wgt"][0], 1000),
                                     "sb": int(q["is_shear_band"])}
                                    for q in (p["perband"] if p["perband"] is not None else [])]}
            else:
                rec["out"].append({"key": str(k), "none": int(out[k] is None),
                                   "rows": [row(r) for r in (out[k] if out[k] is not None else [])]})
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["deblends"] = [v["which"] for v in env.LOG if v["ev"] == "lsst_deblend"]
    rec["backgrounds"] = sorted(set(backs))
    rec["products_same"] = int(all(np.array_equal(a, b) for a, b in zip(kept, kept0)))
    rec["cfg_same"] = int(cfg == cfg0)
    return [rec]


def row(r):
    err = [float(v) for v in np.atleast_1d(r["pgauss_band_flux_err"])]
    return {"pos": [fx(r["col"], PS), fx(r["row"], PS)], "size": int(r["stamp_size"]), "ormask": int(r["ormask"]),
            "mfrac": fx(r["mfrac"], 1000), "pflags": int(r["psfrec_flags"]), "navg": int(r["psfrec_navg"]),
            "T": fx(r["psfrec_T"], 1000), "g1": fx(r["psfrec_g"][0], 1000), "g2": fx(r["psfrec_g"][1], 1000),
            "shear": [int(c) for c in str(r["shear_bands"])], "fwhm": fx(err[0], 100) if err[0] == err[0] else 0}


# ------------------------------------------------------------------ overrides
def flat(d, pre=""):
    out = []
    for k in sorted(d):
        v = d[k]
        if isinstance(v, dict):
            out += flat(v, pre + k + ".")
        else:
            out.append([pre + k, repr(v)])
    return out


def tree(pairs):
    d = {}
    for path, v in pairs:
        q = d
        ks = path.split(".")
        for k in ks[:-1]:
            q = q.setdefault(k, {})
        q[ks[-1]] = copy.deepcopy(v)
    return d


def classes():
    from metadetect.lsst import measure, metadetect, skysub
    return {"mdet": metadetect.MetadetectConfig, "detect": measure.DetectAndDeblendConfig,
            "sky": skysub.SubtractSkyMbExpConfig, "iter": skysub.IterateDetectionSkySubConfig}


def run_override(scn):
    from metadetect.lsst import measure, skysub, util
    cls = classes()[scn["cls"]]
    base = cls()
    base.setDefaults()
    pairs = [list(p) for p in scn["pairs"]]
    bad = scn["bad"]
    d = tree(pairs + ([[bad, 1]] if bad else []))
    d0 = copy.deepcopy(d)
    rec = {"op": "override", "base": flat(base.toDict()), "over": flat(d) if not bad else flat(tree(pairs)),
           "bad": int(bool(bad)), "after": [], "via": scn["via"]}
    try:
        c = None
        if scn["via"] == "task":
            if scn["cls"] == "detect":
                t = measure.get_detect_and_deblend_task(thresh=scn["thresh"], config=d)
                c = t.config
                rec["over"] = [p for p in rec["over"] if p[0] != "detect.thresholdValue"]
                rec["over"].append(["detect.thresholdValue", repr(float(scn["thresh"]))])
            else:
                got = []
                name = {"sky": "SubtractSkyMbExpTask", "iter": "IterateDetectionSkySubTask"}[scn["cls"]]
                orig = getattr(skysub, name)

                class Spy(orig):
                    def __init__(self, *a, **kw):
                        super().__init__(*a, **kw)
                        got.append(self.config)

                    def run(self, *a, **kw):
                        return None
                setattr(skysub, name, Spy)
                pre = "" if scn["cls"] == "iter" else "iterate_detection_and_skysub."
                try:
                    if scn["cls"] == "sky":
                        skysub.subtract_sky_mbexp([], thresh=scn["thresh"], config=d)
                    else:
                        skysub.iterate_detection_and_skysub(None, scn["thresh"], niter=scn["niter"], config=d)
                        rec["over"] = [p for p in rec["over"] if p[0] != "niter"] + [["niter", repr(scn["niter"])]]
                finally:
                    setattr(skysub, name, orig)
                c = got[0]
                k = pre + "detect.thresholdValue"
                rec["over"] = [p for p in rec["over"] if p[0] != k] + [[k, repr(float(scn["thresh"]))]]
        else:
            c = cls()
            c.setDefaults()
            util.override_config(c, d)
        rec["after"] = flat(c.toDict())
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["dict_same"] = int(d == d0)
    f = cls()
    f.setDefaults()
    rec["fresh"] = flat(f.toDict())
    return [rec]


def execute(scn):
    return {"run": run_run, "override": run_override}[scn["op"]](scn)


# ------------------------------------------------------------------ scenarios
LEAVES = {
    "mdet": {"subtract_sky": [True, False], "pgauss.fwhm": [1.5, 2.5], "detect.thresholdValue": [3.0, 7.5],
             "detect.minPixels": [3, 5], "detect.statsMask": [["BAD"], []], "deblender": ["sdss", "scarlet"],
             "metacal.types": [["noshear"], ["1p", "2p"]], "metacal.reconv_type": ["gauss", "fitgauss"],
             "stamp_size": [31, 33], "shear_bands": [["r"], ["i", "z"], None],
             "detect.background.binSize": [64], "detect.tempLocalBackground.binSize": [32]},
    "detect": {"seed": [1, 5], "detect.thresholdValue": [3.0, 9.0], "detect.minPixels": [2, 4],
               "detect.nSigmaToGrow": [1.0, 3.0], "detect.background.binSize": [16, 256],
               "detect.excludeMaskPlanes": [["EDGE"], []], "deblend.maxFootprintArea": [10, 99],
               "deblend.maxNumberOfPeaks": [4], "meas.doReplaceWithNoise": [False], "detect.thresholdType": ["variance"]},
    "sky": {"iterate_detection_and_skysub.niter": [1, 3], "iterate_detection_and_skysub.detect.minPixels": [2],
            "iterate_detection_and_skysub.back.binSize": [32, 64],
            "iterate_detection_and_skysub.back.ignoredPixelMask": [["BAD"], ["EDGE", "NO_DATA"]],
            "iterate_detection_and_skysub.detect.thresholdValue": [2.0]},
    "iter": {"niter": [1, 4], "detect.minPixels": [7], "back.binSize": [8], "back.useApprox": [False],
             "detect.thresholdValue": [2.0, 8.0]},
}
BAD = {"mdet": ["stampsize", "detect.thresholdvalue", "metacal.typ", "pgauss.fwhm_smooth", "detect.background.bin", "met.types"],
       "detect": ["seeds", "detect.minPixel", "deblend.maxArea", "meas.nope", "detec.minPixels"],
       "sky": ["niter", "iterate_detection_and_skysub.nit", "iterate_detection_and_skysub.back.bin"],
       "iter": ["niters", "back.size", "detect.tresh"]}


def gen_override(rng):
    cls = rng.choice(["mdet", "mdet", "detect", "detect", "sky", "iter"])
    lv = LEAVES[cls]
    ks = rng.sample(sorted(lv), rng.randint(0, len(lv)))
    return {"op": "override", "cls": cls, "pairs": [[k, rng.choice(lv[k])] for k in ks],
            "via": "task" if cls != "mdet" and rng.random() < 0.5 else "config",
            "bad": rng.choice(BAD[cls]) if rng.random() < 0.25 else "", "thresh": rng.choice([3.5, 5.0, 6.0]),
            "niter": rng.randint(1, 4)}


def gen_sources(rng, fr, n):
    x, y, w, h = fr
    out, used = [], set()
    for i in range(n):
        while True:
            # anywhere, the border included
            p = [rng.choice([x, x + w - 1, rng.randint(x, x + w - 1), rng.randint(x, x + w - 1)]),
                 rng.choice([y, y + h - 1, rng.randint(y, y + h - 1), rng.randint(y, y + h - 1)])]
            cen = [] if rng.random() < 0.15 else [
                min(max(8 * p[0] + rng.choice([-9, -4, 0, 3, 4, 7, 11]), 8 * x - 4), 8 * (x + w - 1) + 3),
                min(max(8 * p[1] + rng.choice([-8, -4, 0, 2, 4, 6, 12]), 8 * y - 4), 8 * (y + h - 1) + 3)]
            pos = tuple(cen or [8 * v for v in p])
            if pos not in used:
                used.add(pos)
                break
        out.append({"id": 10 + i, "nchild": rng.choice([0, 0, 0, 0, 2]), "peak": p, "fp": p + [1, 1], "cen": cen})
    return out


def gen_run(rng, sk=None, names_set=None, dead=0):
    api = sk["api"] if sk else rng.choice(["mdet", "mdet", "phot"])
    nb = sk["nb"] if sk else rng.choice([1, 2, 2, 3])
    w, h = rng.randint(19, 24), rng.randint(19, 24)
    x, y = rng.choice([(0, 0), (40, -3), (-7, 1001)])
    m = rng.choice([[4, 0, 0, 4], [4, 0, 0, 4], [0, 4, 4, 0], [-3, 1, 1, 3], [3, 0, 0, 3]])
    if api == "phot":
        m = rng.choice([m, [1, 0, 0, 1], [0, -1, 1, 0], [2, 0, 0, -2]])
    names = rng.sample("grizy", nb)
    exps = [plane_exp(rng, x, y, m, w, h, 90) for _ in range(nb)]
    noise = [plane_exp(rng, x, y, m, w, h, 30) for _ in range(nb)]
    sheet = [rng.choice([[4], [4, 8], [4, 8, 12], [12], [8, 12]]) for _ in range(nb)]
    for b, e in enumerate(exps):
        e["var"] = [[rng.choice(sheet[b]) for _ in range(w)] for _ in range(h)]
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 5, 60])):
                e["var"][rng.randrange(h)][rng.randrange(w)] = rng.choice([0, -4, NAN, INF])
    psfs = []
    for b in range(nb):
        s = 10 + rng.randint(0, 5)
        psfs.append(np.round(blob(13, s / 10, (s + rng.randint(-1, 1)) / 10, rng.randint(-1, 1) / 10)
                             * (1 + b / 4), 6).tolist())
    psf = [{"e1": rng.choice([-90, -20, 0, 50, 110]), "e2": rng.choice([-100, -30, 0, 40, 70]),
            "T": rng.randint(4000, 7000), "flags": 0} for _ in range(nb)]
    bad = sk["bad"] if sk else [b + 1 for b in range(nb) if rng.random() < 0.12]
    if bad and api == "phot":
        bad = list(range(1, nb + 1))    # what the joint fit makes of some failing bands is up to the fitting library
    for b in bad:
        psf[b - 1]["flags"] = rng.choice([1, 4, 8])
    if not bad and api == "mdet" and rng.random() < 0.08:
        for p in psf:       # every average of these is beyond the unit circle
            p.update(e1=rng.choice([800, 1000]), e2=700)
    if dead:
        rng.choice(exps)["var"] = [[rng.choice([[0, -4], [INF], [NAN, 0, INF], [NAN]][dead - 1])] * w for _ in range(h)]
    mfrac = []
    if rng.random() < 0.75:
        q = rng.choice([0, 0.02, 0.3, 0.9, 0.9] if api == "mdet" else [0, 0.3, 0.9, 0.9])
        mfrac = [[[rng.randint(1, 8) if rng.random() < q else 0 for _ in range(w)] for _ in range(h)] for _ in range(nb)]
    ormasks = []
    if rng.random() < 0.75:
        ormasks = [[[rng.choice([0, 0, 0, 1, 2, 16, 1 << 20, 3, -(1 << 31)]) for _ in range(w)] for _ in range(h)]
                   for _ in range(rng.choice([nb, nb, 1, 4]))]
    st = {}
    opts = {"stamp_size": lambda: rng.choice([1, 3, 4, 5, 7, 9]), "deblender": lambda: rng.choice(["sdss", "scarlet", "scarlet"]),
            "shear_bands": lambda: rng.choice([None, [], rng.sample(names, rng.randint(1, nb)), rng.sample(names, rng.randint(1, nb)),
                                               rng.sample(names, rng.randint(1, nb)), rng.sample("grizyu", 2)]),
            "thresh": lambda: rng.choice([200, 350, 800, 5000]), "types": lambda: rng.sample(ALL, rng.randint(1, 3)),
            "reconv": lambda: rng.choice(["gauss", "gauss", "fitgauss"]), "subtract_sky": lambda: rng.choice([1, 1, 0]),
            "fwhm": lambda: rng.choice([120, 150, 300])}
    names_set = names_set if names_set is not None else [k for k in opts if rng.random() < 0.55]
    if api == "phot":
        names_set = [k for k in names_set if k not in ("types", "reconv")]
    for k in names_set:
        st[k] = opts[k]()
    if sk and api == "mdet":
        st["types"], st["reconv"] = list(sk["types"]), sk["reconv"]
        st.setdefault("stamp_size", 5)
    if sk:
        st["subtract_sky"] = sk["sky"]
    types = ["phot"] if api == "phot" else list(dict.fromkeys(st.get("types", DEFAULTS["types"])))
    srcs = {t: gen_sources(rng, [x, y, w, h], 0 if (sk and t in sk["empty"]) or (not sk and rng.random() < 0.1)
                           else rng.randint(1, 4)) for t in types}
    return {"op": "run", "api": api, "names": names, "exps": exps, "noise": noise, "psfs": psfs, "psf": psf,
            "mfrac": mfrac, "ormasks": ormasks, "set": st, "srcs": srcs, "alias": rng.randint(0, 1), "reject": "",
            "where": [], "given": rng.randint(0, 1), "stats_asked": int(api == "mdet" and rng.random() < 0.5),
            "seed": rng.randint(0, 10**6)}


def gen_reject(rng):
    s = gen_run(rng)
    for e in s["exps"]:
        e["var"] = [[4 for _ in r] for r in e["var"]]
    s["set"].pop("shear_bands", None)
    if s["api"] == "phot":
        s["reject"] = "unknown_names"
        s["where"] = rng.choice([[], ["detect"], ["pgauss"]])
    else:
        s["reject"] = rng.choice(["unknown_names", "unknown_names", "unknown_types", "unknown_deblenders", "unknown_kernels"])
        s["where"] = rng.choice([[], ["detect"], ["pgauss"], ["metacal"]])
    return s
