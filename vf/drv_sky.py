"""Iterated sky subtraction (specification: SkySub)."""
import logging
import numpy as np
from .num import fx, grid, igrid
from .drv_lexp import exposure, raised

PLANES = ["BAD", "EDGE", "DETECTED", "DETECTED_NEGATIVE", "NO_DATA", "BRIGHT"]


class Count(logging.Handler):
    n = 0

    def emit(self, r):
        if r.levelno >= logging.WARNING:
            self.n += 1


def run_sky(scn):
    import ngmix
    from lsst.afw.image import Mask
    from lsst.pex.exceptions import RuntimeError as LRE
    from lsst.pipe.base import TaskError, Struct
    from metadetect.lsst import skysub, util
    for p in PLANES:
        Mask.addMaskPlane(p)
    bit = {p: int(Mask.getPlaneBitMask(p)) for p in PLANES}
    # masks arrive as sets of planes; bit 27 is a plane nobody ignores
    xs = []
    for k, b in enumerate(scn["bands"]):
        mask = [[sum(bit.get(p, 1 << 27) for p in px) for px in row] for row in b["planes"]]
        e = {"x": scn["x"], "y": scn["y"], "m": [4, 0, 0, 4], "im": b["im"], "mask": mask,
             "var": [[4 for _ in r] for r in b["im"]]}
        xs.append(exposure(e, [[1]], "grizy"[k]))
    if scn["api"] == "mbexp":
        mb = util.get_mbexp(xs)
        xs = list(mb.singles)
    for x, v in zip(xs, scn.get("prior", [])):
        if v:       # the sky was subtracted before
            x.getMetadata()["BGMEAN"] = float(v)
    start = [{"im": grid(x.image.array), "mask": igrid(x.mask.array)} for x in xs]
    var0 = [x.variance.array.copy() for x in xs]
    seen = [{"backs": 0, "detects": 0, "ev": []} for _ in xs]

    def which(exp):
        for k, x in enumerate(xs):
            if exp is x or exp.image.array is x.image.array or np.shares_memory(exp.image.array, x.image.array):
                return k
        return -1

    def fault(k, i, w):
        for f in scn["faults"][k]:
            if f[0] == i and f[1] == w:
                raise (LRE if f[2] == "lsst" else TaskError)("planted")

    def background(task, exp):
        k = which(exp)
        s = seen[k]
        s["backs"] += 1
        s["ev"].append({"t": "back", "thr": 0, "re": 0, "ign": sorted(task.config.ignoredPixelMask)})
        fault(k, s["backs"], "back")
        use = (exp.mask.array & Mask.getPlaneBitMask(list(task.config.ignoredPixelMask))) == 0
        if not use.any():
            raise LRE("no usable pixels")
        v = float(exp.image.array[use].min())
        exp.image.array[:, :] -= v
        exp.getMetadata()["BGMEAN"] = v
        return Struct(background=v)

    def detect(task, table, exp):
        k = which(exp)
        s = seen[k]
        s["detects"] += 1
        thr = task.config.thresholdValue
        s["ev"].append({"t": "detect", "thr": fx(thr, 4), "re": int(bool(task.config.reEstimateBackground)), "ign": []})
        fault(k, s["detects"], "detect")
        m = exp.mask.array
        m &= ~bit["DETECTED"]
        m[exp.image.array > thr] |= bit["DETECTED"]
        return Struct(sources=["band%d" % k, s["detects"]])
    ngmix.env.HOOKS.update(lsst_background=background, lsst_detect=detect)
    logging.disable(logging.NOTSET)
    cnt = Count()
    root = logging.getLogger()
    root.addHandler(cnt)
    result, outcome = "none", "ok"
    try:
        kw = {}
        if scn["api"] == "mbexp":
            cfg = {}
            if scn["niter"] != 2 or scn["explicit"]:
                cfg = {"iterate_detection_and_skysub": {"niter": scn["niter"]}}
            if scn["thr"] >= 0:
                kw["thresh"] = scn["thr"]
            if cfg:
                kw["config"] = cfg
            result = skysub.subtract_sky_mbexp(mb, **kw)
        elif scn["api"] == "iterate":
            if scn["niter"] != 2 or scn["explicit"]:
                kw["niter"] = scn["niter"]
            if scn["cfg"]:
                kw["config"] = {"back": {"binSize": 64}}
            result = skysub.iterate_detection_and_skysub(xs[0], scn["thr"], **kw)
        elif scn["api"] == "task":
            c = skysub.IterateDetectionSkySubConfig()
            c.setDefaults()
            if scn["niter"] != 2 or scn["explicit"]:
                c.niter = scn["niter"]
            if scn["thr"] >= 0:
                c.detect.thresholdValue = scn["thr"]
            result = skysub.IterateDetectionSkySubTask(config=c).run(xs[0])
        else:
            result = skysub.determine_and_subtract_sky(xs[0])
    except Exception as e:
        outcome = raised(e)
    finally:
        logging.disable(logging.CRITICAL)
        root.removeHandler(cnt)
    rec = {"op": "skysub", "api": scn["api"], "niter": scn["niter"], "thr": scn["thr"], "det": bit["DETECTED"],
           "ignored": sum(bit.values()), "planes": sorted(PLANES), "bands": start, "outcome": outcome, "warned": cnt.n,
           "faults": [[[f[0], f[1]] for f in fs] for fs in scn["faults"]], "seen": seen, "result": [], "none": 0}
    if result is None:
        rec["none"] = 1
    elif hasattr(result, "sources"):
        rec["result"] = list(result.sources)
    rec["after"] = []
    for x, v in zip(xs, var0):
        md = x.getMetadata()
        rec["after"].append({"im": grid(x.image.array), "mask": igrid(x.mask.array),
                             "var_same": int(np.array_equal(v, x.variance.array)),
                             "bg": [fx(md["BGMEAN"])] if "BGMEAN" in md else []})
    return [rec]


execute = run_sky


def gen(rng, sk=None):
    api = rng.choice(["mbexp", "mbexp", "iterate", "iterate", "task", "one"])
    nb = len(sk["bands"]) if sk else rng.randint(1, 4)
    if sk and nb > 1:
        api = "mbexp"
    if api != "mbexp":
        nb = 1
    niter = sk["niter"] if sk else rng.choice([1, 2, 2, 3, 4])
    if not sk and api != "mbexp" and rng.random() < 0.15:
        niter = rng.choice([0, -1])
    bands = []
    for k in range(nb):
        if sk:
            im = sk["bands"][k]["im"]
            im = [[8 * v for v in r] for r in im]
            pl = [[rng.choice([["BAD"], ["EDGE"], ["NO_DATA", "BRIGHT"], ["DETECTED"], ["DETECTED_NEGATIVE"], ["BRIGHT"]])
                   if m else [] for m in r] for r in sk["bands"][k]["mask"]]
        else:
            h, w = rng.randint(1, 5), rng.randint(1, 5)
            if k:
                h, w = len(bands[0]["im"]), len(bands[0]["im"][0])
            im = [[rng.choice([-3, 0, 1, 5, 9, 20, 40]) for _ in range(w)] for _ in range(h)]
            pl = [[rng.sample(PLANES + ["OTHER"], rng.choice([0, 0, 0, 1, 2])) for _ in range(w)] for _ in range(h)]
            if rng.random() < 0.1:
                pl = [[["BAD"] for _ in range(w)] for _ in range(h)]
        bands.append({"im": im, "planes": pl})
    if sk:
        faults = [[[f[0], f[1], rng.choice(["lsst", "task"])] for f in fs] for fs in sk["faults"][:nb]]
    else:
        faults = [[[rng.randint(1, 3), rng.choice(["back", "detect"]), rng.choice(["lsst", "task"])]]
                  if rng.random() < 0.3 else [] for _ in range(nb)]
    if api == "one":
        faults = [[] for _ in range(nb)]
    thr = rng.choice([1, 3, 7, 12])
    if api in ("mbexp", "task") and rng.random() < 0.3:
        thr = -1
    return {"op": "skysub", "api": api, "niter": niter, "thr": thr, "explicit": rng.randint(0, 1), "cfg": rng.randint(0, 1),
            "prior": [rng.choice([0, 0, 3, -2]) for _ in bands], "bands": bands, "faults": faults, "x": rng.choice([0, 30]), "y": rng.choice([0, -8])}
