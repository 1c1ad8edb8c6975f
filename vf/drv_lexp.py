"""Exposures: conversions, coadds, stamps, selections (specification: Exposure)."""
import numpy as np
from .num import fx, grid, igrid, NAN, INF

VS, MS, PS = 4, 4, 8


class PosPsf:
    """a PSF which remembers where it was evaluated"""

    def __init__(self, im, log=None):
        self.im, self.log = np.array(im, dtype="f8"), [] if log is None else log

    def computeKernelImage(self, pos=None):
        from lsst.afw.image import ImageD
        self.log.append((pos.getX(), pos.getY()))
        return ImageD(self.im.copy())

    computeImage = computeKernelImage

    def clone(self):
        return PosPsf(self.im, self.log)


def var_of(c):
    return {NAN: np.nan, INF: np.inf}.get(c, c / VS)


def wcs_of(e):
    from lsst.afw.geom import FlatWcs
    m = np.array(e["m"], dtype="f8").reshape(2, 2) / MS
    return FlatWcs(e.get("wx", 0), e.get("wy", 0), m, 20.0, 1.0)


def exposure(e, psf=None, band="i", cls="F"):
    import lsst.afw.image as ai
    im = np.array(e["im"], dtype="f8")
    h, w = im.shape
    x = (ai.ExposureF if cls == "F" else ai.ExposureD)(w, h)
    from lsst.geom import Point2I
    for p in (x.image, x.mask, x.variance):
        p.setXY0(Point2I(e["x"], e["y"]))
    x.image.array[:, :] = im
    x.variance.array[:, :] = [[var_of(v) for v in row] for row in e["var"]]
    x.mask.array[:, :] = np.array(e["mask"])
    x.setWcs(wcs_of(e))
    if psf is not None:
        x.setPsf(PosPsf(psf))
    x.setFilter(ai.FilterLabel(band))
    return x


def planes(x):
    return {"im": grid(x.image.array), "var": grid(x.variance.array, VS), "mask": igrid(x.mask.array)}


def freeze(x):
    return (x.image.array.tobytes(), x.variance.array.tobytes(), x.mask.array.tobytes(),
            id(x.getWcs()), id(x.getPsf()), x.getFilter().bandLabel,
            (x.getXY0().x, x.getXY0().y))


def jac(j):
    return {"cen": [fx(j.col0, PS), fx(j.row0, PS)],
            "d": [fx(v, MS) for v in (j.dudcol, j.dudrow, j.dvdcol, j.dvdrow)]}


def uniform_positive(w):
    return int(bool(np.all(np.isfinite(w)) and np.all(w > 0) and np.all(w == w.flat[0])))


def obs_rec(o, psf):
    return {"im": grid(o.image), "w": grid(o.weight, 1000),
            "bm": igrid(o.bmask) if o.has_bmask() else [], "om": igrid(o.ormask) if o.has_ormask() else [],
            "jac": jac(o.jacobian), "psf": grid(o.psf.image), "pjac": jac(o.psf.jacobian),
            "pw": uniform_positive(o.psf.weight),
            "psfpos": [fx(psf.log[-1][0], PS), fx(psf.log[-1][1], PS)] if psf.log else []}


def raised(e):
    return "raise:" + type(e).__name__


def run_exp2obs(scn):
    from metadetect.lsst import util
    x = exposure(scn["exp"], scn["psf"])
    before = freeze(x)
    rec = {"op": "exp2obs", "exp": scn["exp"], "psf": scn["psf"], "to": scn["to"], "store": scn["store"], "obs": {}}
    try:
        kw = {} if scn["to"] == "ormask" and scn["dflt"] else {"copy_mask_to": scn["to"]}
        if scn["store"]:
            kw["store_exp"] = True
        o = util.exp2obs(x, **kw)
        rec["obs"] = obs_rec(o, x.getPsf())
        rec["obs"]["stored"] = int("exposure" in o.meta and o.meta["exposure"] is x)
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["same"] = int(freeze(x) == before)
    return [rec]


def make_obs(s):
    import ngmix
    n = len(s["psf"])
    j = ngmix.DiagonalJacobian(row=1, col=1, scale=1)
    psf = ngmix.Observation(np.array(s["psf"], dtype="f8"), weight=np.ones((n, n)), jacobian=j)
    return ngmix.Observation(np.array(s["im"], dtype="f8"), weight=np.array(s["w"], dtype="f8"),
                             bmask=np.array(s["bm"], dtype="i4"), ormask=np.array(s["om"], dtype="i4"),
                             jacobian=j, psf=psf, ignore_zero_weight=bool((np.array(s["w"]) > 0).any()))


def run_obs2exp(scn):
    from metadetect.lsst import util
    o = make_obs(scn["obs"])
    raw = [a.tobytes() for a in (o.image, o.weight, o.bmask, o.ormask, o.psf.image)]
    x = exposure(scn["exp"], scn["psf"]) if scn["given"] else None
    psf0, wcs0 = (x.getPsf(), x.getWcs()) if x is not None else (None, None)
    rec = {"op": "obs2exp", "obs": scn["obs"], "from": scn["from"], "given": scn["given"], "copy": scn["copy"],
           "same_object": 0, "wcs_same": 0, "psf_copied": 0, "psf_kept": 0, "out": {}}
    try:
        kw = {} if scn["from"] == "bmask" and scn["dflt"] else {"copy_mask_from": scn["from"]}
        if scn["given"]:
            kw["exp"] = x
        if scn["copy"]:
            kw["copy_psf"] = True
        out = util.obs2exp(o, **kw)
        rec["same_object"] = int(out is x)
        rec["wcs_same"] = int(out.getWcs() is wcs0)
        rec["psf_kept"] = int(out.getPsf() is psf0)
        if out.getPsf() is not None and out.getPsf() is not psf0:
            from lsst.geom import Point2D
            k = out.getPsf().computeKernelImage(Point2D(0, 0)).array
            p = np.array(scn["obs"]["psf"], dtype="f8")
            rec["psf_copied"] = int(k.shape == p.shape and np.allclose(k * p.sum(), p))
        rec["out"] = {"im": grid(out.image.array), "var": grid(out.variance.array, 1000),
                      "mask": igrid(out.mask.array)}
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["same"] = int(raw == [a.tobytes() for a in (o.image, o.weight, o.bmask, o.ormask, o.psf.image)])
    # weights as codes: VS/w must be the variance in units of 1
    rec["obs"] = {"im": scn["obs"]["im"], "w": [[int(v * VS) for v in r] for r in scn["obs"]["w"]],
                  "bm": scn["obs"]["bm"], "om": scn["obs"]["om"]}
    return [rec]


def run_round(scn):
    from metadetect.lsst import util
    x = exposure(scn["exp"], scn["psf"])
    rec = {"op": "round", "exp": scn["exp"], "out": {}}
    try:
        o = util.exp2obs(x, copy_mask_to=scn["to"])
        y = util.obs2exp(o, copy_mask_from=scn["to"], **({"exp": exposure(scn["exp2"])} if scn["given"] else {}))
        rec["out"] = planes(y)
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    return [rec]


def run_chain(scn):
    """conversions one after the other, each on what the one before returned"""
    from metadetect.lsst import util
    cur = exposure(scn["exp"], scn["psf"])
    rec = {"op": "chain", "exp": scn["exp"], "steps": scn["steps"], "out": {}}
    try:
        for k, which in enumerate(scn["steps"]):
            if k % 2 == 0:
                cur = util.exp2obs(cur, copy_mask_to=which, store_exp=bool(scn["store"]))
            else:
                cur = util.obs2exp(cur, exp=exposure(scn["exp2"], scn["psf"]), copy_mask_from=which,
                                   copy_psf=bool(scn["copy"]))
        if len(scn["steps"]) % 2:
            rec["out"] = {"im": grid(cur.image), "w": grid(cur.weight, 1000), "bm": igrid(cur.bmask),
                          "om": igrid(cur.ormask)}
        else:
            rec["out"] = planes(cur)
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    return [rec]


class NoPsf(PosPsf):
    """a PSF which cannot be evaluated anywhere"""

    def computeKernelImage(self, pos=None):
        from lsst.pex.exceptions import InvalidParameterError
        raise InvalidParameterError("no input at this position")

    computeImage = computeKernelImage


def run_nopsf(scn):
    """observations of a source in an exposure whose PSF has no input there"""
    from lsst.geom import Point2D
    from metadetect.lsst import util
    x = exposure(scn["exp"], scn["psf"])
    x.setPsf(NoPsf(scn["psf"]))
    before = freeze(x)
    rec = {"op": "nopsf", "exp": scn["exp"], "stamp": scn["stamp"]}
    try:
        if scn["stamp"]:
            s = source(peak=scn["peak"], cen=scn["cen"], coord=scn["coord"], wcs=x.getWcs())
            util.extract_obs(exp=x, source=s)
        else:
            util.extract_psf_image(x, Point2D(scn["cen"][0] / PS, scn["cen"][1] / PS))
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["same"] = int(freeze(x) == before)
    return [rec]


def source(fpbox=None, peak=(0, 0), cen=None, coord=None, wcs=None, sid=1, more=(), **kw):
    """positions times PS; coord None: unknown"""
    from lsst.geom import Point2D, Box2I, Point2I, Extent2I
    from lsst.afw.detection import Footprint
    from lsst.afw.geom import SpanSet
    from lsst.afw.table import SourceRecord
    b = fpbox or (peak[0], peak[1], 1, 1)
    fp = Footprint(SpanSet(Box2I(Point2I(b[0], b[1]), Extent2I(b[2], b[3]))))
    fp.addPeak(peak[0], peak[1], 1.0)
    for i, p in enumerate(more):  # fainter ones
        fp.addPeak(p[0], p[1], 0.5 / (i + 1))
    s = SourceRecord(sid, 0, fp, **kw)
    if cen:
        s.setCentroid(Point2D(cen[0] / PS, cen[1] / PS))
    if coord:
        s.setCoord(wcs.pixelToSky(Point2D(coord[0] / PS, coord[1] / PS)))
    return s


def run_extract(scn):
    from metadetect.lsst import util
    x = exposure(scn["exp"], scn["psf"])
    s = source(peak=scn["peak"], cen=scn["cen"], coord=scn["coord"], wcs=x.getWcs())
    before = freeze(x)
    rec = {"op": "extract", "exp": scn["exp"], "psf": scn["psf"], "cen": scn["cen"], "coord": scn["coord"],
           "peak": scn["peak"], "obs": {}}
    try:
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            o = util.extract_obs(exp=x, source=s)
        rec["obs"] = obs_rec(o, x.getPsf())
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["same"] = int(freeze(x) == before)
    return [rec]


# ------------------------------------------------------------------ coadds
def run_coadd(scn):
    from metadetect.lsst import util
    from lsst.geom import Point2D
    xs = [exposure(e, p, "grizy"[i]) for i, (e, p) in enumerate(zip(scn["exps"], scn["psfs"]))]
    before = [freeze(x) for x in xs]
    rec = {"op": "coadd", "exps": scn["exps"], "psfs": scn["psfs"], "out": {}, "wcs_same": 0, "pos": []}
    try:
        o = util.coadd_exposures(xs)
        rec["outcome"] = "none" if o is None else "ok"
        rec["pos"] = [[[fx(p[0], PS), fx(p[1], PS)] for p in x.getPsf().log] for x in xs]
        if o is not None:
            rec["out"] = {"im": grid(o.image.array, 1000), "var": grid(o.variance.array, 1000),
                          "mask": igrid(o.mask.array), "x": o.getXY0().x, "y": o.getXY0().y,
                          "psf": grid(o.getPsf().computeKernelImage(Point2D(0, 0)).array, 1000)}
            rec["wcs_same"] = int(o.getWcs() is xs[0].getWcs() or o.getWcs() == xs[0].getWcs())
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["same"] = int([freeze(x) for x in xs] == before)
    recs = [rec]
    if rec["outcome"] == "ok":
        # what an unusable pixel holds does not matter
        e2 = [dict(e) for e in scn["exps"]]
        changed = False
        for e in e2:
            im = [list(r) for r in e["im"]]
            for i, row in enumerate(e["var"]):
                for j, v in enumerate(row):
                    if v == NAN or v <= 0:
                        im[i][j] += 500
                        changed = True
            e["im"] = im
        if changed:
            r2 = dict(rec)
            r2["exps"] = e2
            ys = [exposure(e, p, "grizy"[i]) for i, (e, p) in enumerate(zip(e2, scn["psfs"]))]
            o = util.coadd_exposures(ys)
            r2["out"] = dict(rec["out"], im=grid(o.image.array, 1000))
            recs.append(r2)
    return recs


def run_mbcoadd(scn):
    import ngmix
    from metadetect.lsst import util
    mb = ngmix.MultiBandObsList()
    jl = []
    for i, s in enumerate(scn["obs"]):
        o = make_obs(dict(s, bm=[[0] * len(r) for r in s["im"]], om=[[0] * len(r) for r in s["im"]]))
        ol = ngmix.ObsList()
        ol.append(o)
        if scn["extra"]:
            ol.append(make_obs(dict(s, im=[[v + 3 for v in r] for r in s["im"]], bm=[[0] * len(r) for r in s["im"]],
                                    om=[[0] * len(r) for r in s["im"]])))
        mb.append(ol)
        jl.append(o)

    def fr():
        return [[a.tobytes() for a in (o.image, o.weight, o.psf.image)] + [repr(o.jacobian)] for ol in mb for o in ol]
    before = fr()
    rec = {"op": "mbcoadd", "obs": [{"im": s["im"], "w": s["w"], "psf": s["psf"], "jac": jac(o.jacobian),
                                     "pjac": jac(o.psf.jacobian)} for s, o in zip(scn["obs"], jl)], "out": {}}
    try:
        o = util.coadd_mbobs(mb)
        rec["out"] = {"im": grid(o.image, 1000), "w": grid(o.weight, 1000), "psf": grid(o.psf.image, 1000),
                      "jac": jac(o.jacobian), "pjac": jac(o.psf.jacobian)}
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["same"] = int(fr() == before)
    return [rec]


def meta_same(mb, xs, psf_is_clone=False):
    ok = True
    for s, x in zip(mb.singles, xs):
        ok &= s.getWcs() is x.getWcs() and s.getFilter().bandLabel == x.getFilter().bandLabel
        ok &= (s.getXY0().x, s.getXY0().y) == (x.getXY0().x, x.getXY0().y)
        p, q = s.getPsf(), x.getPsf()
        ok &= (p is None and q is None) or (p is not None and q is not None and np.array_equal(p.im, q.im))
    return int(bool(ok))


def run_split(scn):
    from metadetect.lsst import util
    keys = ("coadd_exp", "coadd_noise_exp", "coadd_mfrac_exp")
    data, xs = [], {k: [] for k in keys}
    for i, b in enumerate(scn["names"]):
        d = {}
        for k, key in enumerate(keys):
            d[key] = exposure(scn["exps"][i][k], scn["psfs"][i], b)
            xs[key].append(d[key])
        data.append(d)
    rec = {"op": "split", "names": scn["names"], "given": [[e[k]["im"] for e in scn["exps"]] for k in range(3)],
           "masks": [e[0]["mask"] for e in scn["exps"]], "out": [], "ormasks": [], "newmasks": [], "bands": [],
           "meta_same": 0, "copied": 0}
    try:
        out = util.extract_multiband_coadd_data(data)
        mbs = [out["mbexp"], out["noise_mbexp"], out["mfrac_mbexp"]]
        rec["out"] = [[grid(s.image.array) for s in mb.singles] for mb in mbs]
        rec["ormasks"] = [igrid(m) for m in out["ormasks"]]
        rec["newmasks"] = [igrid(s.mask.array) for mb in mbs for s in mb.singles]
        rec["bands"] = [list(mb.bands) for mb in mbs]
        rec["meta_same"] = int(all(meta_same(mb, xs[k]) for mb, k in zip(mbs, keys)))
        rec["copied"] = int(not any(np.shares_memory(m, s.mask.array) for m in out["ormasks"]
                                    for mb in mbs for s in mb.singles)
                            and not any(np.shares_memory(m, x.mask.array) for m in out["ormasks"]
                                        for k in keys for x in xs[k]))
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    return [rec]


class FixedPsf(PosPsf):
    """a PSF which does not support cloning"""

    def clone(self):
        raise RuntimeError("cannot clone this")


def run_copy(scn):
    """copy_mbexp and get_mbexp"""
    from metadetect.lsst import util
    xs = [exposure(e, p, b) for e, p, b in zip(scn["exps"], scn["psfs"], scn["names"])]
    for i, (x, p) in enumerate(zip(xs, scn["psfs"])):
        if scn["fixed"] & (1 << i):
            x.setPsf(FixedPsf(p))
    try:
        mb = util.get_mbexp(xs)
    except Exception as e:
        return [{"op": "copy", "outcome": raised(e)}]
    recs = []
    for what in ("get", "copy", "clear"):
        rec = {"op": "copy", "cleared": int(what == "clear"), "meta_same": 0, "copied": 0}
        try:
            out = mb if what == "get" else util.copy_mbexp(mb, clear=what == "clear")
            old = xs if what == "get" else mb.singles
            rec["meta_same"] = int(meta_same(out, xs) and list(out.bands) == scn["names"])
            rec["copied"] = int(not any(np.shares_memory(p(a), p(b)) for a in out.singles for b in old for p in (
                lambda s: s.image.array, lambda s: s.mask.array, lambda s: s.variance.array)))
            for s, e in zip(out.singles, scn["exps"]):
                recs.append(dict(rec, given={"im": e["im"], "var": e["var"], "mask": e["mask"]}, out=planes(s),
                                 outcome="ok"))
        except Exception as e:
            recs.append(dict(rec, outcome=raised(e)))
    return recs


# ------------------------------------------------------------------ stamps
def run_stamp(scn):
    """every way to cut a stamp around one source"""
    from metadetect.lsst import util
    from metadetect.lsst.mbobs_extractor import MBObsExtractor
    from metadetect.lsst.model_subtractor import ModelSubtractor
    from lsst.afw.table import SourceCatalog
    from lsst.pipe.base import Struct
    recs = []
    names = scn["names"]
    xs = [exposure(e, p, b) for e, p, b in zip(scn["exps"], scn["psfs"], names)]
    mb = util.get_mbexp(xs)
    B = mb.getBBox()
    fpbox = scn["fpbox"]
    src = source(fpbox=fpbox, peak=scn["peak"], cen=scn["coord"], coord=scn["coord"], wcs=xs[0].getWcs(), sid=7,
                 more=scn.get("more", ()))
    other = source(peak=[B.getMinX(), B.getMinY()], cen=scn["coord"], coord=scn["coord"], wcs=xs[0].getWcs(), sid=9)
    cat = SourceCatalog()
    for s in ([src, other] if scn["order"] else [other, src]):
        cat.append(s)
    clip, size = bool(scn["clip"]), scn["size"]
    ckw = {"clip": True} if clip else ({} if scn["order"] else {"clip": False})
    mbe = MBObsExtractor(mb, cat)
    sub = ModelSubtractor(mb, cat, Struct(metadata={"bands": list(mb.bands), "model_psf": np.zeros((1, 1)),
                                                    "psf": np.zeros((1, 1, 1))}, blends={}))
    for s in (src, other):
        sub.footprints[s.getId()], sub.bboxes[s.getId()] = s.getFootprint(), s.getFootprint().getBBox()
        sub.heavies[s.getId()] = None
    skw = {} if size < 0 else {"stamp_size": size}
    ways = [("sub.get_bbox", lambda: sub.get_bbox(7, **skw, **ckw)),
            ("sub.get_stamp", lambda: sub.get_stamp(7, **skw, **ckw)),
            ("sub.get_mbobs", lambda: sub.get_mbobs(7, **skw, **ckw)),
            ("sub.get_stamp_orig", lambda: sub.get_stamp(7, type="original", **skw, **ckw)),
            ("sub.get_mbobs_orig", lambda: sub.get_mbobs(7, type="original", **skw, **ckw))]
    if size >= 0:
        ways += [("get_bbox", lambda: util.get_bbox(mb, src, size, **ckw)),
                 ("get_stamp_mbobs", lambda: util.get_stamp_mbobs(mb, src, size, **ckw)),
                 ("ext.get_stamp", lambda: mbe.get_stamp(7, size, **ckw)),
                 ("ext.get_mbobs", lambda: mbe.get_mbobs(7, size, **ckw))]
    before = [freeze(s) for s in mb.singles] + [freeze(s) for s in sub.mbexp.singles]
    for name, fn in ways:
        rec = {"op": "stamp", "way": name, "exps": [{k: e[k] for k in ("x", "y", "im", "var", "mask", "m")}
                                                    for e in scn["exps"]],
               "peak": scn["peak"], "size": size, "clip": scn["clip"], "names": names, "box": [], "planes": [],
               "bands": [], "coord": scn["coord"], "copied": 1,
               "fpbox": {"x": fpbox[0], "y": fpbox[1], "w": fpbox[2], "h": fpbox[3]}}
        try:
            r = fn()
            rec["outcome"] = "ok"
            if "bbox" in name:
                rec["box"] = [r.getMinX(), r.getMinY(), r.getWidth(), r.getHeight()]
            elif "get_stamp_mbobs" in name or "mbobs" in name:
                rec["bands"] = [ol.meta["band"] for ol in r]
                rec["planes"] = [{"im": grid(ol[0].image), "mask": igrid(ol[0].bmask), "var": [], "xy": [],
                                  "cen": jac(ol[0].jacobian)["cen"]} for ol in r]
                rec["copied"] = int(all(len(ol) == 1 for ol in r))
            else:
                rec["bands"] = list(r.bands)
                b = r.getBBox()
                rec["box"] = [b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight()]
                rec["planes"] = [dict(planes(s), xy=[s.getXY0().x, s.getXY0().y], cen=[]) for s in r.singles]
                for s in r.singles:
                    s.image.array[:, :] += 1
                    s.mask.array[:, :] |= 8
        except Exception as e:
            rec["outcome"] = raised(e)
        rec["same"] = int([freeze(s) for s in mb.singles] + [freeze(s) for s in sub.mbexp.singles] == before)
        recs.append(rec)
    for name, fn in (("ext", mbe), ("sub", sub)):
        for m in ("get_stamp", "get_mbobs", "check_source_id", "add_source", "get_bbox", "get_model"):
            if not hasattr(fn, m):
                continue
            try:
                r = getattr(fn, m)(5, **({} if m in ("check_source_id", "add_source") else {"stamp_size": 3}))
                if m == "add_source":
                    with r:
                        pass
                out = "ok"
            except Exception as e:
                out = raised(e)
            recs.append({"op": "stranger", "way": name + "." + m, "outcome": out})
    return recs


# ------------------------------------------------------------------ selections
class Bands:
    def __init__(self, bands):
        self.bands = tuple(bands)


def run_select(scn):
    from metadetect.lsst import util
    recs = []
    wants = [scn["want"]] + ([None] if scn["want"] == [] else [tuple(scn["want"])])
    for w in wants:
        rec = {"op": "select", "bands": scn["bands"], "want": scn["want"], "out": []}
        try:
            rec["out"] = [int(i) for i in util.extract_shear_band_indices(Bands(scn["bands"]), {"shear_bands": w})]
            rec["outcome"] = "ok"
        except Exception as e:
            rec["outcome"] = raised(e)
        recs.append(rec)
    return recs


def run_trim(scn):
    from metadetect.lsst import util
    h, w = scn["h"], scn["w"]
    a = np.arange(h * w, dtype=scn.get("dt", "f8")).reshape(h, w)
    b = a.copy()
    rec = {"op": "trim", "h": h, "w": w, "out": {}}
    try:
        o = util.trim_odd_image(a)
        r, c = divmod(int(o[0, 0]), w)
        rec["out"] = {"h": o.shape[0], "w": o.shape[1], "r": r, "c": c,
                      "ok": int(np.array_equal(o, b[r:r + o.shape[0], c:c + o.shape[1]]))}
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = raised(e)
    rec["same"] = int(np.array_equal(a, b))
    return [rec]


def execute(scn):
    from ngmix import env
    env.reset()
    return {"exp2obs": run_exp2obs, "obs2exp": run_obs2exp, "round": run_round, "extract": run_extract,
            "chain": run_chain, "nopsf": run_nopsf,
            "coadd": run_coadd, "mbcoadd": run_mbcoadd, "split": run_split, "copy": run_copy,
            "stamp": run_stamp, "select": run_select, "trim": run_trim}[scn["op"]](scn)


# ------------------------------------------------------------------ scenarios
MATS = [[4, 0, 0, 4], [-4, 0, 0, 4], [1, 0, 0, 1], [3, 1, -2, 5], [0, 4, -4, 0], [2, -1, 3, 2], [-1, 0, 1, 2]]
VCODES = [0, 1, 2, 4, 8, 16, INF, NAN, -4]


def gen_exp(rng, h, w, codes=VCODES, bad=0.3, x=None, y=None):
    k = rng.random()
    pool = [c for c in codes if c not in (0, INF, NAN, -4)] if k > 2 * bad else list(codes)
    if 0 not in codes:
        k = 1
    if k < 0.05:
        pool = [0, NAN, -4]
    if 0.05 < k < 0.1:
        pool = [0, INF]
    return {"x": rng.choice([0, 0, 5, -3, 1000]) if x is None else x, "y": rng.choice([0, 0, 7, -2, 2000]) if y is None else y,
            "im": [[rng.randint(-9, 90) for _ in range(w)] for _ in range(h)],
            "var": [[rng.choice(pool) for _ in range(w)] for _ in range(h)],
            "mask": [[rng.choice([0, 0, 1, 4, 2**20, 2**30, 5, -2**31, 3 - 2**31]) for _ in range(w)] for _ in range(h)],
            "m": rng.choice(MATS), "wx": rng.choice([0, 3]), "wy": rng.choice([0, -2])}


def gen_psf(rng, n=None):
    n = n or rng.choice([1, 3, 5])
    return [[rng.randint(1, 9) for _ in range(n)] for _ in range(n)]


def gen_conv(rng):
    h, w = rng.randint(1, 5), rng.randint(1, 5)
    t = rng.choice(["exp2obs", "exp2obs", "obs2exp", "round", "extract", "extract", "chain", "nopsf"])
    e = gen_exp(rng, h, w)
    if t == "chain":
        return gen_chain(rng)
    if t == "nopsf":
        pos = lambda: [PS * e["x"] + rng.randint(0, 8 * w), PS * e["y"] + rng.randint(0, 8 * h)]  # noqa
        return {"op": t, "exp": usable(e, rng), "psf": gen_psf(rng), "stamp": rng.randint(0, 1), "cen": pos(),
                "peak": [e["x"] + rng.randrange(w), e["y"] + rng.randrange(h)], "coord": pos()}
    if t == "exp2obs":
        # (the library refuses observations without any weight)
        return {"op": t, "exp": usable(e, rng), "psf": gen_psf(rng), "to": rng.choice(["ormask", "bmask", "bmask", "mask"]),
                "store": rng.randint(0, 1), "dflt": rng.randint(0, 1)}
    if t == "round":
        return {"op": t, "exp": usable(e, rng), "exp2": dict(gen_exp(rng, h, w)), "psf": gen_psf(rng),
                "to": rng.choice(["ormask", "bmask"]), "given": rng.randint(0, 1)}
    if t == "extract":
        pos = lambda: [PS * e["x"] + rng.randint(-8, 8 * w + 8), PS * e["y"] + rng.randint(-8, 8 * h + 8)]  # noqa
        return {"op": t, "exp": e, "psf": gen_psf(rng), "peak": [e["x"] + rng.randrange(w), e["y"] + rng.randrange(h)],
                "cen": pos(), "coord": pos() if rng.random() < 0.8 else []}
    ob = {"im": e["im"], "w": [[rng.choice([0, 0.25, 0.5, 1, 2, 4, 16]) for _ in range(w)] for _ in range(h)],
          "bm": e["mask"], "om": gen_exp(rng, h, w)["mask"], "psf": gen_psf(rng)}
    return {"op": "obs2exp", "obs": ob, "exp": gen_exp(rng, h, w), "psf": gen_psf(rng), "given": rng.randint(0, 1),
            "copy": rng.randint(0, 1), "from": rng.choice(["bmask", "ormask", "ormask", "mask"]), "dflt": rng.randint(0, 1)}


def gen_chain(rng, sk=None):
    h, w = (rng.randint(1, 4), rng.randint(1, 4)) if sk is None else (1, len(sk["var"][0]))
    e = usable(gen_exp(rng, h, w), rng)
    if sk is not None:
        e["var"], e["mask"] = sk["var"], sk["mask"]
    steps = sk["steps"] if sk is not None else [rng.choice(["bmask", "ormask"]) for _ in range(rng.randint(2, 7))]
    return {"op": "chain", "exp": e, "exp2": gen_exp(rng, h, w), "psf": gen_psf(rng), "steps": steps,
            "store": rng.randint(0, 1), "copy": rng.randint(0, 1)}


def usable(e, rng):
    h, w = len(e["im"]), len(e["im"][0])
    if not any(v != NAN and v != INF and v > 0 for r in e["var"] for v in r):
        e["var"][rng.randrange(h)][rng.randrange(w)] = 4
    return e


def gen_coadd(rng, sk=None):
    t = rng.random() if sk is None else 0
    if t < 0.6:
        n = rng.randint(1, 4)
        h, w = rng.randint(1, 4), rng.randint(1, 4)
        x, y = rng.choice([0, 5, 1000]), rng.choice([0, -3, 2000])
        if sk is not None:
            n, h, w = len(sk["var"]), len(sk["var"][0]), len(sk["var"][0][0])
        m = rng.choice(MATS)
        exps = []
        for i in range(n):
            e = gen_exp(rng, h, w, codes=[0, 1, 2, 4, 8, INF, -4, NAN], x=x, y=y)
            e["m"] = m
            if sk is not None:
                e["var"], e["im"] = sk["var"][i], sk["im"][i]
            if sk is None and rng.random() < 0.12:
                # nothing usable in this one
                e["var"] = [[rng.choice([0, 0, NAN, -4]) for _ in range(w)] for _ in range(h)]
            exps.append(e)
        p = rng.choice([1, 3])
        return {"op": "coadd", "exps": exps, "psfs": [gen_psf(rng, p) for _ in range(n)]}
    if t < 0.75:
        n, h, w = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 4)
        obs = []
        for i in range(n):
            wt = [[rng.choice([0, 1, 2, 4]) for _ in range(w)] for _ in range(h)]
            wt[rng.randrange(h)][rng.randrange(w)] = rng.choice([1, 2, 4])
            obs.append({"im": [[rng.randint(-9, 50) for _ in range(w)] for _ in range(h)], "w": wt,
                        "psf": gen_psf(rng, 3)})
        return {"op": "mbcoadd", "obs": obs, "extra": rng.randint(0, 1)}
    n, h, w = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    names = rng.sample(["g", "r", "i", "z", "y"], n)
    x, y = rng.choice([0, 5, 1000]), rng.choice([0, -3, 2000])
    psfs = [gen_psf(rng, 3) for _ in range(n)]
    if t < 0.88:
        return {"op": "split", "names": names, "psfs": psfs,
                "exps": [[gen_exp(rng, h, w, x=x, y=y) for _ in range(3)] for _ in range(n)]}
    return {"op": "copy", "fixed": rng.choice([0, 0, 1, 2, 7]), "names": names, "psfs": psfs, "exps": [gen_exp(rng, h, w, x=x, y=y) for _ in range(n)]}


def gen_stamp(rng, sk=None):
    n = rng.randint(1, 3)
    if sk is None:
        h, w = rng.randint(1, 9), rng.randint(1, 9)
        x, y = rng.choice([0, 5, -3, 1000]), rng.choice([0, -2, 7, 2000])
        size = rng.choice([-1, 0, 1, 2, 3, 3, 4, 5, 5, 7, 12])
        peak = [x + rng.randrange(w), y + rng.randrange(h)]
        clip = rng.randint(0, 1)
    else:
        B = sk["B"]
        x, y, w, h, peak, size, clip = B["x"], B["y"], B["w"], B["h"], list(sk["p"]), sk["s"], sk["clip"]
    exps = []
    m = rng.choice(MATS)
    for i in range(n):
        e = gen_exp(rng, h, w, codes=[1, 2, 4, 8], x=x, y=y)
        e["m"], e["wx"], e["wy"] = m, 0, 0
        e["im"] = [[(i + 1) * 1000 + a * w + b for b in range(w)] for a in range(h)]
        exps.append(e)
    fx0, fy0 = rng.randint(x, peak[0]), rng.randint(y, peak[1])
    fpbox = [fx0, fy0, rng.randint(peak[0], x + w - 1) - fx0 + 1, rng.randint(peak[1], y + h - 1) - fy0 + 1]
    return {"op": "stamp", "more": [[rng.randint(x, x + w - 1), rng.randint(y, y + h - 1)]] if rng.random() < 0.2 else [],
            "exps": exps, "psfs": [gen_psf(rng, 3) for _ in range(n)],
            "names": rng.sample(["g", "r", "i", "z", "y"], n), "peak": peak, "size": size, "clip": clip,
            "fpbox": fpbox, "order": rng.randint(0, 1),
            "coord": [PS * peak[0] + rng.randint(-4, 4), PS * peak[1] + rng.randint(-4, 4)]}
