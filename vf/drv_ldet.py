"""Detection and deblending of exposures (specification: ExpDetect)."""
import copy
import numpy as np
from .num import INF, NAN, grid, igrid
from .drv_lexp import exposure, freeze, raised, source, gen_exp, gen_psf, MATS

S = 1000
DET = {"minPixels": [3, 6], "isotropicGrow": [False], "combinedGrow": [False], "nSigmaToGrow": [1.5],
       "returnOriginalFootprints": [True], "includeThresholdMultiplier": [2.0], "thresholdPolarity": ["negative"],
       "adjustBackground": [0.25], "doApplyFlatBackgroundRatio": [True], "nPeaksMaxSimple": [2],
       "nSigmaForKernel": [5.0], "excludeMaskPlanes": [["EDGE"], []], "thresholdType": ["value"],
       "reEstimateBackground": [True], "thresholdValue": [7.5, 30.0], "statsMask": [["BAD"], []]}
DEB = {"maxFootprintArea": [50]}
SLOTS = ["apFlux", "gaussianFlux", "calibFlux", "modelFlux", "shape"]


def text(v):
    if isinstance(v, (list, tuple)) or type(v).__name__ == "List":
        return ",".join(sorted(str(i) for i in v))
    return str(v)


def settings_of(cfg, like):
    return {k: text(getattr(cfg, k)) for k in like}


def make_task(scn):
    from metadetect.lsst import measure
    over = {}
    for sec, key, value in scn["over"]:
        if key == "thresholdValue" and scn["alias"]:
            key = "thresh"
        over.setdefault(sec, {})[key] = copy.deepcopy(value)
    if scn["seed"]:
        over["seed"] = scn["seed"]
    kw = {"deblender": scn["deb"]}
    if scn["deb"] == "sdss" and scn["dflt"]:
        del kw["deblender"]
    given_thr = any(k == "thresholdValue" for _, k, _ in scn["over"])
    if scn["thr"]:
        kw["thresh"] = float(scn["thr"])
    elif given_thr or not scn["dflt"]:
        kw["thresh"] = [None, 0][scn["zero"]]
    rng = np.random.RandomState(scn["rng"]) if scn["rng"] else None
    if rng is not None:
        kw["rng"] = rng
    if over or not scn["dflt"]:
        kw["config"] = over
    before = copy.deepcopy(over)
    task = measure.get_detect_and_deblend_task(**kw)
    return task, over == before, rng


def same_state(a, b):
    x, y = a.get_state(), b.get_state()
    return x[2] == y[2] and np.array_equal(x[1], y[1])


def source_ids(sources):
    return [int(s.getId()) for s in sources]


def one_run(scn, run, task, head):
    from ngmix import env
    from metadetect.lsst import util
    from lsst.afw.table import SourceCatalog
    from lsst.pipe.base import Struct
    env.reset()
    k0 = "D" if run["dbl"] else "F"
    xs = [exposure(e, p, b, cls=k0) for e, p, b in zip(run["exps"], run["psfs"], run["names"])]
    mb = util.get_mbexp(xs)
    seen = {"ev": [], "input": {}, "cls": "", "cfg": {}, "schema": 0, "det_is_input": 0}
    keep = {}

    def src(i, x):
        b = x.getBBox()
        p = [b.getMinX(), b.getMinY()]
        return source(peak=p, cen=[8 * p[0], 8 * p[1]], coord=[8 * p[0], 8 * p[1]], wcs=xs[0].getWcs(), sid=i)

    def detect(t, table, x):
        seen["ev"].append({"t": "detect"})
        seen["input"] = {"im": grid(x.image.array, S), "var": grid(x.variance.array, S), "mask": igrid(x.mask.array)}
        seen["cls"] = type(x).__name__
        seen["det_is_input"] = int(any(x is s for s in mb.singles))
        seen["cfg"] = settings_of(t.config, DET)
        seen["schema"] = int(table.getSchema() is task.meas.schema and t.schema is task.meas.schema
                             and task.deblend.schema is task.meas.schema and t is task.detect)
        keep["det"] = x
        x.mask.array[:, :] |= 2**21
        if run["found"] < 0:
            return None
        cat = SourceCatalog(table)
        for i in range(run["found"]):
            cat.append(src(i + 1, x))
        keep["cat"] = cat
        return Struct(sources=cat)

    def sdss(t, x, sources):
        seen["ev"].append({"t": "deblend", "which": "sdss", "ids": source_ids(sources),
                           "on": int(x is keep.get("det") and sources is keep.get("cat"))})
        for k in run["kids"]:
            sources.append(src(100 + k, x))

    def deconvolve(x, cat, band):
        n = [i for i, s in enumerate(mb.singles) if s is x]
        seen["ev"].append({"t": "deconvolve", "n": n[0] + 1 if n else 0, "band": band, "ids": source_ids(cat)})
        new = x.clone()
        new.image.array[:, :] += 1000 * (n[0] + 1 if n else 0)
        return Struct(deconvolved=new)

    def scarlet(t, mexp, mdec, merged):
        seen["ev"].append({"t": "deblend", "which": "scarlet", "ids": source_ids(merged),
                           "on": int(mexp is mb and merged is keep.get("cat")),
                           "dec": [grid(s.image.array, S) for s in mdec.singles], "decbands": list(mdec.bands)})
        new = SourceCatalog()
        for s in merged:
            new.append(s)
        for k in run["kids"]:
            new.append(src(100 + k, keep["det"]))
        keep["new"] = new
        keep["model"] = Struct(metadata={}, blends={})
        return Struct(scarletModelData=keep["model"], deblendedCatalog=new)

    def foot(model, cat, band):
        rem = [v for v in env.LOG if v["ev"] == "lsst_update_footprints"][-1]["remove"]
        seen["ev"].append({"t": "footprints", "on": int(model is keep.get("model") and cat is keep.get("new")),
                           "keep": int(not rem)})

    env.HOOKS.update(lsst_detect=detect, lsst_deblend=sdss, lsst_deconvolve=deconvolve, lsst_scarlet=scarlet,
                     lsst_update_footprints=foot)
    before = [freeze(x) for x in xs]
    rec = dict(head, op="detdeb", exps=run["exps"], names=run["names"], dbl=run["dbl"], found=run["found"],
               kids=run["kids"], ids=[], det="", model="")
    try:
        sources, det, model = task.run(mb)
        rec["ids"] = source_ids(sources)
        rec["det"] = "none" if det is None else "detected" if det is keep.get("det") else "other"
        rec["model"] = "none" if model is None else "deblended" if model is keep.get("model") else "other"
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["seen"] = seen
    rec["same"] = int([freeze(x) for x in xs] == before)
    env.reset()
    return rec


def execute(scn):
    from ngmix import env
    env.reset()
    over = {sec: {k: text(v) for s, k, v in scn["over"] if s == sec} for sec in ("detect", "deblend")}
    head = {"deb": scn["deb"], "thr": scn["thr"], "over": {k: v or [] for k, v in over.items()}, "deblending": {},
            "measuring": {}, "noise": 0, "same_config": 0}
    try:
        task, kept, rng = make_task(scn)
    except Exception as e:
        return [dict(head, op="detmake", outcome=raised(e))]
    head["same_config"] = int(kept)
    m = task.meas.config
    head["measuring"] = dict({"plugins": text(m.plugins.names), "binmax": text(m.plugins["base_SdssCentroid"].binmax)},
                             **{k: text(getattr(m.slots, k)) for k in SLOTS})
    deb = ["maxFootprintArea"] + (["processSingles"] if scn["deb"] == "scarlet" else [])
    head["deblending"] = settings_of(task.deblend.config, deb)
    want = np.random.RandomState(scn["seed"] or 42)
    head["noise"] = int(task.rng is rng if rng is not None else same_state(task.rng, want))
    return [one_run(scn, r, task, copy.deepcopy(head)) for r in scn["runs"]]


# ------------------------------------------------------------------ scenarios
def gen_run(rng, sk=None, names=None):
    nb = rng.choice([1, 1, 2, 2, 3]) if sk is None else len(sk["var"])
    h, w = rng.randint(1, 4), rng.randint(1, 4)
    x, y = rng.choice([0, 5, 1000]), rng.choice([0, -3, 2000])
    m = rng.choice(MATS)
    exps = []
    for i in range(nb):
        e = gen_exp(rng, h, w, codes=[1, 2, 4, 8, INF], x=x, y=y)
        e["m"] = m
        if sk is not None:
            e["var"] = [[sk["var"][i] if rng.random() < 0.8 or sk["var"][i] in (INF, 0) else rng.choice([2, 16])
                         for _ in range(w)] for _ in range(h)]
        elif rng.random() < 0.15:
            dead = rng.choice([INF, INF, 0, NAN, -4])
            e["var"] = [[dead] * w for _ in range(h)]
        exps.append(e)
    found = rng.choice([-1, 0, 1, 2, 3]) if sk is None else sk["found"]
    kids = sorted(rng.sample(range(1, found + 1), rng.randint(0, found))) if found > 0 else []
    if sk is not None:
        kids = list(sk["kids"])
    p = rng.choice([1, 3])
    return {"exps": exps, "psfs": [gen_psf(rng, p) for _ in range(nb)],
            "names": rng.sample(["g", "r", "i", "z", "y"], nb),
            "dbl": (rng.randint(0, 1) if nb == 1 else 0) if sk is None else sk["dbl"], "found": found, "kids": kids}


def gen(rng, sk=None):
    over = []
    what = rng.choice(["none", "detect", "deblend", "both"]) if sk is None else sk["task"]["over"]
    thr = rng.choice(["", "", "3.0", "12.5"]) if sk is None else sk["task"]["thr"]
    if what in ("detect", "both"):
        for k in rng.sample(sorted(DET), rng.randint(1, 4)):
            if k == "thresholdValue" and thr:
                continue            # which of the two wins is nobody's promise
            over.append(["detect", k, rng.choice(DET[k])])
    if what in ("deblend", "both"):
        over.append(["deblend", "maxFootprintArea", 50])
    runs = [gen_run(rng, r) for r in sk["runs"]] if sk is not None else []
    while len(runs) < 2 and (sk is None or rng.random() < 0.5):
        runs.append(gen_run(rng))
    return {"deb": rng.choice(["sdss", "scarlet"]) if sk is None else sk["task"]["deb"], "thr": thr, "over": over,
            "alias": rng.randint(0, 1), "dflt": rng.randint(0, 1), "zero": rng.randint(0, 1),
            "rng": rng.choice([0, 0, 7, 11]), "seed": rng.choice([0, 0, 3]), "runs": runs}
