"""Many exposure-level runs in one process (specification: Session).

Steps are those of Session without colour functions.  Every execution is recorded
as an instance of its own, also if the task object it uses is an older one: what a
run gives is a function of the exposures, products and configuration it is given
and of the state of its generator.
"""
import contextlib
import copy
import io
import json
import random
import numpy as np
from .drv_sess import _h, _arr, gen_digest, glob_digest, apart
from .drv_lexp import exposure
from .drv_lmcal import blob, install_hook
from .drv_lrun import sky_pattern
from .drv_sub import build_models

BOOM = 9.75     # a detection threshold at which the detection of this world fails


def exps_digest(mb):
    out = []
    for b, x in zip(mb.bands, mb.singles):
        psf, wcs = x.getPsf(), x.getWcs()
        out.append((str(b), type(x).__name__, _arr(x.image.array), _arr(x.variance.array), _arr(x.mask.array),
                    x.getFilter().bandLabel, (x.getXY0().x, x.getXY0().y),
                    _arr(psf.im) if hasattr(psf, "im") else type(psf).__name__,
                    sorted(vars(wcs).items(), key=repr) if hasattr(wcs, "__dict__") else repr(wcs),
                    sorted((k, v) for k, v in dict(x.getMetadata()).items())))
    return _h(repr(out))


def res_digest(res):
    if res is None:
        return ["none"]
    if not isinstance(res, dict):
        res = {"phot": res}
    out = []
    for k in sorted(res):
        v = res[k]
        if v is None:
            d = "none"
        elif isinstance(v, dict):
            d = _h(repr([(q, _arr(v[q]) if isinstance(v[q], np.ndarray) else repr(v[q])) for q in sorted(v)]))
        else:
            d = _h(v.dtype.descr, v.shape, v.tobytes())
        out.append("%s:%s" % (k, d))
    return out


# -------------------------------------------------------------------- inputs
def build_images(o):
    from metadetect.lsst import util
    rng = np.random.RandomState(o["seed"])
    n, nb = o["n"], o["nband"]
    y, x = np.mgrid[0:n, 0:n]
    pts = [(rng.uniform(4, n - 5), rng.uniform(4, n - 5), rng.uniform(200, 900)) for _ in range(o["nobj"])]

    def mb(kind):
        xs = []
        for b in range(nb):
            im = np.zeros((n, n))
            if kind == "image":
                im += 2 * np.exp(-((x - n / 2)**2 + (y - n / 2)**2) / 9)
                for cx, cy, a in pts:
                    im += a * (1 + b / 3) * np.exp(-((x - cx)**2 + (y - cy)**2) / 6)
            elif kind == "noise":
                for _ in range(3):
                    im += rng.uniform(-3, 3) * np.exp(-((x - rng.uniform(6, n - 6))**2
                                                        + (y - rng.uniform(6, n - 6))**2) / 8)
            else:
                im = rng.uniform(size=(n, n)) * (rng.uniform(size=(n, n)) < 0.1)
            e = {"x": o["x"], "y": o["y"], "m": [4, 0, 0, 4], "im": im.tolist(),
                 "var": rng.choice([4, 8, 8, 12], size=(n, n)).tolist(),
                 "mask": rng.choice([0, 0, 0, 1, 512], size=(n, n)).tolist()}
            xs.append(exposure(e, blob(13, 1.2 + b / 10, 1.3, 0.05 * b).tolist(), o["names"][b]))
        return util.get_mbexp(xs)
    out = {"image": mb("image"), "noise": mb("noise"), "mfrac": mb("mfrac") if o["mfrac"] else None, "ormasks": None}
    if o["ormasks"]:
        out["ormasks"] = [rng.choice([0, 0, 1, 16], size=(n, n)).astype("i4") for _ in range(o["ormasks"])]
    return out


def build_cfg(c):
    cfg = {"detect": {"thresh" if c["phot"] or c["alias"] else "thresholdValue": c["thresh"]},
           "stamp_size": c["stamp"], "deblender": c["deb"], "subtract_sky": bool(c["sky"])}
    if c["fwhm"]:
        cfg["pgauss"] = {"fwhm": c["fwhm"]}
    if c["bands"]:
        cfg["shear_bands"] = list(c["bands"])
    if not c["phot"]:
        cfg["metacal"] = {"types": list(c["types"]), "reconv_type": c["reconv"]}
    return cfg


class World:
    def __init__(self, scn):
        d = copy.deepcopy(scn)
        self.images = [build_images(o) for o in d["obs"]]
        self.cfgs = [build_cfg(c) for c in d["cfgs"]]
        self.phot = [c["phot"] for c in d["cfgs"]]
        self.gens = {"g%d" % g: np.random.RandomState(77) for g in (1, 2)}
        self.held = {}
        self.tasks = {}

    def pieces(self, k):
        im = self.images[k]
        d = {"image%d" % k: exps_digest(im["image"]), "noise%d" % k: exps_digest(im["noise"]),
             "mfrac%d" % k: exps_digest(im["mfrac"]) if im["mfrac"] is not None else "none",
             "ormasks%d" % k: _h([_arr(m) for m in im["ormasks"]]) if im["ormasks"] else "none"}
        return d

    def config_digest(self, k):
        return _h(json.dumps(self.cfgs[k], sort_keys=True, default=repr), self.phot[k])

    def snapshot(self):
        inputs = {}
        for k in range(len(self.images)):
            inputs.update(self.pieces(k))
        for k in range(len(self.cfgs)):
            inputs["config%d" % k] = self.config_digest(k)
        return {"inputs": inputs, "gens": {k: gen_digest(g) for k, g in self.gens.items()},
                "glob": glob_digest(), "held": {k: res_digest(r) for k, r in self.held.items()}}

    # the pixels a sky subtraction may have changed
    def save(self, k):
        return [(x.image.array.copy(), x.variance.array.copy(), x.mask.array.copy(), dict(x.getMetadata()))
                for x in self.images[k]["image"].singles]

    def load(self, k, saved):
        for x, (i, v, m, meta) in zip(self.images[k]["image"].singles, saved):
            x.image.array[:, :], x.variance.array[:, :], x.mask.array[:, :] = i, v, m
            x.getMetadata().clear()
            x.getMetadata().update(copy.deepcopy(meta))

    def run(self, i, k, c, rng, task, stats):
        """task: key of a task object to be made once and kept, or None"""
        from metadetect.lsst import util
        from metadetect.lsst.metadetect import run_metadetect, MetadetectConfig, MetadetectTask
        from metadetect.lsst.photometry import run_photometry
        im, cfg = self.images[k], self.cfgs[c]
        kw = {"mbexp": im["image"], "rng": rng}
        if im["mfrac"] is not None:
            kw["mfrac_mbexp"] = im["mfrac"]
        if im["ormasks"]:
            kw["ormasks"] = im["ormasks"]
        with contextlib.redirect_stdout(io.StringIO()):
            if self.phot[c]:
                return run_photometry(config=cfg, **kw)
            kw["noise_mbexp"] = im["noise"]
            if stats:
                kw["get_psf_stats"] = True
            if task is None:
                return run_metadetect(config=cfg, **kw)
            if (task, c) not in self.tasks:
                conf = MetadetectConfig()
                conf.setDefaults()
                util.override_config(conf, cfg)
                conf.freeze()
                conf.validate()
                self.tasks[task, c] = MetadetectTask(config=conf)
            return self.tasks[task, c].run(**kw)


def _setup():
    from ngmix import env
    from lsst.afw.table import SourceCatalog, SourceRecord
    from lsst.afw.detection import Footprint
    from lsst.afw.geom import SpanSet
    from lsst.geom import Box2I, Point2I, Extent2I
    from lsst.pipe.base import Struct
    env.reset()
    install_hook()
    count = {"n": 0}

    def detect(task, table, exp):
        """local maxima above the threshold"""
        thr = float(task.config.thresholdValue)
        count["n"] += 1
        if thr == BOOM and count["n"] % 2 == 0:
            raise ValueError("scripted detection error")
        a = exp.image.array.astype("f8")
        v = exp.variance.array
        ok = np.isfinite(v) & (v > 0)
        sd = np.sqrt(np.median(v[ok])) if ok.any() else 1.0
        cat = SourceCatalog(table)
        b = exp.getBBox()
        h, w = a.shape
        for r in range(1, h - 1):
            for q in range(1, w - 1):
                if a[r, q] > thr * sd and a[r, q] == a[r - 1:r + 2, q - 1:q + 2].max():
                    p = (b.getMinX() + q, b.getMinY() + r)
                    fp = Footprint(SpanSet(Box2I(Point2I(p[0] - 1, p[1] - 1), Extent2I(3, 3))))
                    fp.addPeak(p[0], p[1], float(a[r, q]))
                    cat.append(SourceRecord(len(cat) + 1, 0, fp))
        return Struct(sources=cat)

    def background(task, exp):
        exp.image.array[:, :] -= sky_pattern(exp.image.array.shape)
        exp.getMetadata()["BGMEAN"] = 0.5

    def scarlet(task, mexp, mdec, merged):
        nb = len(mexp.singles)
        b = mexp.singles[0].getBBox()
        fr = [b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight()]
        src = []
        for s in merged:
            p = s.getFootprint().getPeaks()[0].getI()
            src.append({"id": s.getId(), "models": [{"box": [p.x, p.y, 1, 1], "m": [[1]]}] * nb})
        d = {"mbands": list(mexp.bands), "names": list(mexp.bands), "ker": [[[1]]] * nb, "obs": fr,
             "groups": [[i] for i in range(len(src))], "srcs": src}
        return Struct(scarletModelData=build_models(d, merged), deblendedCatalog=merged)
    env.HOOKS.update(lsst_detect=detect, lsst_background=background, lsst_scarlet=scarlet,
                     noise=lambda rng: float((np.random if rng is None else rng).normal()))
    return count


def one(w, name, k, c, rng, task, stats, count, gen):
    """records of one execution, and what is needed to repeat it alone"""
    count["n"] = 0
    give = dict(w.pieces(k), kind="phot" if w.phot[c] else "mdet%d" % stats, cfg=w.config_digest(c), obs="", comb="")
    give["obs"] = _h([give.pop(q) for q in sorted(give) if q[-1] == str(k) and q != "kind"])
    start = rng.get_state()
    saved = w.save(k)
    st = w.snapshot()
    recs = [{"op": "new", "inst": name, "gen": gen, "give": give, "may": [], "st": st},
            {"op": "enter", "inst": name, "start": gen_digest(rng)}]
    try:
        res = w.run(name, k, c, rng, task, stats)
        out = "dict" if res is not None else "none"
    except Exception as e:
        res, out = None, "raise:%s" % type(e).__name__
    if out == "dict":
        w.held[name] = res
    sky = bool(w.cfgs[c].get("subtract_sky"))
    recs.append({"op": "go", "inst": name, "out": out, "dig": res_digest(res) + [exps_digest(w.images[k]["image"])],
                 "end": gen_digest(rng), "may": ["image%d" % k] if sky else [],
                 "raised": int(out.startswith("raise") and w.cfgs[c]["detect"].get("thresh", w.cfgs[c]["detect"].get(
                     "thresholdValue")) != BOOM), "st": w.snapshot()})
    return recs, (k, c, stats, start, saved, task)


def session(scn):
    count = _setup()
    np.random.seed(5)
    random.seed(5)
    w = World(scn)
    recs = [dict(op="begin", prop=scn["prop"], st=w.snapshot())]
    runs, given = [], {}
    n = 0
    for s in scn["steps"]:
        i = s[1]
        if s[0] == "new":
            given[i] = (s[2] - 1, s[3] - 1, "g%d" % s[4])
        elif s[0] in ("go", "nested"):
            k, c, g = given[i]
            n += 1
            r, todo = one(w, "i%d_%d" % (i, n), k, c, w.gens[g], "shared" if scn["task"][i - 1] else None,
                          scn["stats"][i - 1], count, g)
            recs += r
            runs.append(todo)
    return recs, runs


def solo(scn, k, c, stats, start, saved, task):
    count = _setup()
    np.random.seed(99)
    random.seed(99)
    w = World(scn)
    w.gens = {"g1": np.random.RandomState(0)}
    w.load(k, saved)
    w.gens["g1"].set_state(start)
    recs = [{"op": "alone", "st": w.snapshot()}]
    return recs + one(w, "solo", k, c, w.gens["g1"], task, stats, count, "g1")[0]


def execute(scn):
    import metadetect.lsst.metadetect  # noqa: imported before the processes part
    import metadetect.lsst.photometry  # noqa
    recs, runs = apart(session, scn)
    seen = set()
    for r in runs:
        k, c, stats, start, saved, task = r
        key = (k, c, stats, bool(task), _h(start[1].tobytes(), start[2:]), _h(*[a.tobytes() for s in saved for a in s[:3]]))
        if key in seen:
            continue
        seen.add(key)
        recs += apart(solo, scn, *r)
    return recs


# ---------------------------------------------------------------- generation
def gen(rng, sk):
    nb = rng.randint(1, 2)
    names = rng.sample("griz", nb)
    obs = [{"seed": rng.randint(1, 10**6), "n": rng.choice([19, 21]), "nband": nb, "nobj": rng.randint(0, 3),
            "names": names, "x": rng.choice([0, 30]), "y": rng.choice([0, -7]), "mfrac": rng.randint(0, 1),
            "ormasks": rng.choice([0, 1, nb])} for _ in range(2)]
    cfgs = [{"phot": int(rng.random() < 0.3), "alias": rng.randint(0, 1), "thresh": rng.choice([3.0, 5.0]),
             "stamp": rng.choice([7, 9]), "deb": rng.choice(["sdss", "sdss", "scarlet"]),
             "sky": int(rng.random() < 0.3), "fwhm": rng.choice([0, 1.5]),
             "bands": rng.choice([[], rng.sample(names, rng.randint(1, nb))]),
             "types": rng.choice([["noshear", "1p"], ["noshear"], ["1m"]]),
             "reconv": rng.choice(["gauss", "fitgauss"])} for _ in range(2)]
    if rng.random() < 0.5:
        cfgs[1]["thresh"] = BOOM
    return {"prop": "L15", "steps": [list(s) for s in sk["steps"]], "obs": obs, "cfgs": cfgs,
            "task": rng.choice([[0, 0, 0], [1, 1, 1], [1, 1, 1], [rng.randint(0, 1) for _ in range(3)]]), "stats": [rng.randint(0, 1) for _ in range(3)]}
