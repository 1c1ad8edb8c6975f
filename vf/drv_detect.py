"""Detection images, boxes and stamps (specification: Detect)."""
import copy
import numpy as np
from .num import fx, grid, igrid
from . import drv_joint

JACS = [  # dvdrow, dvdcol, dudrow, dudcol in hundredths
    (100, 0, 0, 100), (50, 0, 0, 50), (20, 5, -5, 20), (-26, 1, 2, 27), (0, 30, 30, 0)]
PLANES = (("im", "image"), ("w", "weight"), ("seg", "seg"), ("bm", "bmask"), ("no", "noise"))


def build(scn):
    import ngmix
    mb = ngmix.MultiBandObsList()
    vr, vc, ur, uc = (x / 100 for x in scn["jac"])
    for b, bd in enumerate(scn["bands"]):
        w = np.array(bd["w"], dtype="f8")
        jac = ngmix.Jacobian(row=(w.shape[0] - 1) / 2, col=(w.shape[1] - 1) / 2,
                             dvdrow=vr, dvdcol=vc, dudrow=ur, dudcol=uc)
        p = np.array(bd["psf"], dtype="f8")
        psf = ngmix.Observation(p, weight=np.ones(p.shape), jacobian=ngmix.Jacobian(
            row=1, col=1, dvdrow=vr, dvdcol=vc, dudrow=ur, dudcol=uc))
        kw = {}
        for key, name, dt in (("bm", "bmask", "i4"), ("no", "noise", "f8")):
            if bd[key]:
                kw[name] = np.array(bd[key], dtype=dt)
        o = ngmix.Observation(np.array(bd["im"], dtype="f8"), weight=w, psf=psf, jacobian=jac,
                              ignore_zero_weight=bool(np.any(w > 0)), **kw)
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
    return mb


def scripted_objs(objs):
    import sxdes
    a = np.zeros(len(objs), dtype=sxdes.DTYPE)
    for k, o in enumerate(objs):
        a["x"][k], a["y"][k] = o["x"] / 4, o["y"] / 4
        a["number"][k] = o["number"]
        a["iso_radius"][k], a["flux_radius"][k] = o["rad4"] / 4, o["fr4"] / 4
        a["a"][k], a["b"][k] = o["a"], o["b"]
        a["ymin"][k], a["ymax"][k] = 2, 2 + o["dy"]
        a["xmin"][k], a["xmax"][k] = 3, 3 + o["dx"]
    return a


def config_strings(c):
    out = {}
    for k in sorted(c):
        v = c[k]
        out[k] = str(np.asarray(v).tolist()) if not isinstance(v, str) else v
    return out


def meds_config(m):
    return {"box_type": m["type"], "min_box_size": m["min"], "max_box_size": m["max"],
            "rad_min": m["rmin4"] / 4, "rad_fac": m["rfac2"] / 2, "box_padding": m["pad"],
            "sigma_fac": m["sfac"]}


def entry(c, k):
    return {"y": fx(c["orig_row"][k, 0], 1000), "x": fx(c["orig_col"][k, 0], 1000),
            "number": int(c["number"][k]), "box": int(c["box_size"][k]),
            "r0": int(c["orig_start_row"][k, 0]), "c0": int(c["orig_start_col"][k, 0]),
            "r1": int(c["orig_end_row"][k, 0]), "c1": int(c["orig_end_col"][k, 0]),
            "rad": fx(c["iso_radius_arcsec"][k], 1000) if "iso_radius_arcsec" in c.dtype.names else 0}


def stamp_record(scn, ms, mbl, k, o, seg, before, mb, outcome="ok"):
    """everything the stamps of object number k show"""
    rec = {"op": "stamp", "bands": scn["bands"], "nr": scn["nr"], "nc": scn["nc"],
           "jac": [x * 10 for x in scn["jac"]], "seg": igrid(seg), "obj": o, "outcome": "ok",
           "stamps": []}
    try:
        for b in range(len(scn["bands"])):
            m = ms.mlist[b]
            s = {"obs": 0, "obs_same": 1, "jac": [], "row": 0, "col": 0}
            for key, name in PLANES:
                try:
                    im = m.get_cutout(k, 0, type=name)
                except (AttributeError, ValueError):
                    s[key] = []
                    continue
                s[key] = igrid(im) if key in ("bm", "seg") else grid(im)
                try:      # spoil the stamp: the image must not notice
                    im += 77
                except ValueError:
                    pass
            p = m.get_cutout(k, 0, type="psf")
            s["psf"] = grid(p)
            p += 50
            if any(map(any, s["w"])):
                obs = m.get_obslist(k)[0]
                s["obs"] = 1
                j = obs.jacobian
                s["jac"] = [fx(x, 1000) for x in (j.dvdrow, j.dvdcol, j.dudrow, j.dudcol)]
                s["row"], s["col"] = (fx(x, 1000) for x in j.get_cen())
                ok = grid(obs.image) == s["im"] and grid(obs.weight) == s["w"]
                ok = ok and (igrid(obs.bmask) if obs.has_bmask() else []) == s["bm"]
                ok = ok and (grid(obs.noise) if obs.has_noise() else []) == s["no"]
                ok = ok and grid(obs.psf.image) == s["psf"]
                s["obs_same"] = int(ok)
                with obs.writeable():
                    obs.image[:, :] += 3
            rec["stamps"].append(s)
    except Exception as x:
        rec["outcome"] = "raise:%s:%s" % (type(x).__name__, str(x)[:60])
    rec["inputs_same"] = int(drv_joint.freeze(mb) == before[0] and np.array_equal(seg, before[1]))
    return rec


def execute(scn):
    from ngmix import env
    from metadetect import detect
    env.reset()
    mb = build(scn)
    seg = np.array(scn["seg"], dtype="i4")
    before = (drv_joint.freeze(mb), seg.copy())
    recs = []
    if scn["via"] == "list":
        objs = scn["objs"]
        kw = {}
        if scn["with_seg"]:
            kw = {"seg": seg, "number": np.array([o["number"] for o in objs])}
        boxes = np.array([o["box"] for o in objs])
        try:
            ms = detect.CatalogMEDSifier(
                mb, np.array([o["x"] / 4 for o in objs]), np.array([o["y"] / 4 for o in objs]),
                boxes, **kw).get_multiband_meds()
        except Exception as x:
            return [{"op": "stamp", "bands": scn["bands"], "nr": scn["nr"], "nc": scn["nc"],
                     "jac": [], "seg": scn["seg"], "obj": objs[0], "inputs_same": 1, "stamps": [],
                     "outcome": "raise:%s:%s" % (type(x).__name__, str(x)[:60])}]
        sg = seg if scn["with_seg"] else np.zeros_like(seg)
        for k, o in enumerate(objs):
            recs.append(stamp_record(scn, ms, None, k, o, sg, (before[0], sg.copy()), mb))
        return recs

    calls = []

    def det(image, noise, config, mask, thresh, objs, seg):
        calls.append({"im": grid(image, 1000), "var": fx(float(noise)**2, 1000000),
                      "mask": [[int(x) for x in r] for r in mask], "thresh": fx(thresh, 1000),
                      "config": config_strings(config)})
        return scripted_objs(scn["objs"]), np.array(scn["seg"], dtype="i4")
    env.HOOKS["detect"] = det
    import sxdes
    if scn["sx"]:
        sx = {"detect_thresh": scn["thresh"] / 1000, "minarea": scn["minarea"], "filter_type": "conv",
              "filter_kernel": [[1.0, 2.0], [0.5, 1.0]], "clean": True, "extra_setting": 3}
        want = dict(sx)
        want.pop("detect_thresh")
        thresh = scn["thresh"]
    else:
        sx, want, thresh = None, sxdes.SX_CONFIG, fx(sxdes.DETECT_THRESH, 1000)
    keep = copy.deepcopy(sx)
    mconf = meds_config(scn["meds"])
    mkeep = dict(mconf)
    defaults = copy.deepcopy(config_strings(sxdes.SX_CONFIG))
    rec = {"op": "detect", "bands": scn["bands"], "nodet": scn["nodet"], "objs": scn["objs"],
           "meds": scn["meds"], "thresh": thresh, "config": config_strings(want), "cat": [],
           "listed": [], "scale2": 0, "seg_same": 0}
    rec["scale2"] = {0: 2, 1: 1}.get(JACS.index(tuple(scn["jac"])), 0)
    ms = None
    try:
        kw = {"nodet_flags": scn["nodet"]} if scn["nodet"] or scn["nodet_given"] else {}
        m = detect.MEDSifier(mbobs=mb, sx_config=sx, meds_config=mconf, **kw)
        cat = m.cat
        rec["cat"] = [entry(cat, k) for k in range(cat.size)]
        rec["seg_same"] = int(np.array_equal(m.seg, np.array(scn["seg"])))
        ms = m.get_multiband_meds()
        c2 = detect.CatalogMEDSifier(mb, cat["x"], cat["y"], cat["box_size"], seg=m.seg,
                                     number=cat["number"]).cat
        rec["listed"] = [entry(c2, k) for k in range(c2.size)]
        rec["outcome"] = "ok"
    except Exception as x:
        rec["outcome"] = "raise:%s:%s" % (type(x).__name__, str(x)[:60])
    rec["det"] = calls
    rec["inputs_same"] = int(
        drv_joint.freeze(mb) == before[0] and (sx == keep) and mconf == mkeep
        and config_strings(sxdes.SX_CONFIG) == defaults)
    recs.append(rec)
    if ms is not None and scn["stamps"]:
        for k in range(len(scn["objs"])):
            o = dict(scn["objs"][k], box=rec["cat"][k]["box"])
            if o["box"] <= 24:
                recs.append(stamp_record(scn, ms, None, k, o, m.seg, (before[0], m.seg.copy()), mb))
    env.reset()
    return recs


# ------------------------------------------------------------------ scenarios
def band(rng, nr, nc, planes):
    g = lambda lo, hi: [[rng.randint(lo, hi) for _ in range(nc)] for _ in range(nr)]   # noqa
    w0 = rng.randint(1, 9)
    p = rng.choice([0, 0, 0.1, 0.3])
    w = [[0 if rng.random() < p else (w0 if rng.random() < .8 else rng.randint(1, 9))
          for _ in range(nc)] for _ in range(nr)]
    if not any(map(any, w)):
        w[0][0] = w0
    return {"w": w, "im": g(-50, 99), "psf": [[rng.randint(1, 99) for _ in range(3)] for _ in range(3)],
            "bm": [[rng.choice([0, 0, 0, 1, 2, 4, 6, 32, 1 << 29, -1 << 31]) for _ in range(nc)] for _ in range(nr)]
            if "bm" in planes else [], "no": g(-9, 9) if "no" in planes else []}


def obj(rng, nr, nc, k, wild=False):
    lo, hi = (-12, 4 * max(nr, nc) + 30) if wild else (0, None)
    return {"y": rng.randint(lo, hi if hi else 4 * nr - 4), "x": rng.randint(lo, hi if hi else 4 * nc - 4),
            "number": k + 1, "rad4": rng.choice([0, 2, 3, 5, 8, 13, 21, 34, 60]),
            "fr4": rng.randint(1, 40), "a": rng.randint(1, 4), "b": 1, "dy": rng.randint(0, 30),
            "dx": rng.randint(0, 30)}


def gen(rng, via="list", geom=None, boxsk=None):
    nr, nc = rng.randint(2, 8), rng.randint(2, 8)
    if geom:
        nr = nc = geom["n"]
    nb = rng.choice([1, 1, 2, 3])
    planes = [p for p in ("bm", "no") if rng.random() < 0.75]
    bands = [band(rng, nr, nc, planes if rng.random() < .8 else ["bm"]) for _ in range(nb)]
    n = rng.choice([0, 1, 1, 2, 3]) if via == "detect" else rng.randint(1, 3)
    objs = [obj(rng, nr, nc, k, via == "list" and rng.random() < 0.5) for k in range(n)]
    numbers = list(range(1, n + 1))
    for o, m in zip(objs, numbers):
        o["number"] = m
        o["b"] = rng.randint(1, o["a"])
        o["box"] = rng.choice([1, 2, 3, 4, 6, 7, 8, 12])
    if geom:
        objs = [dict(obj(rng, nr, nc, 0), y=geom["y"], x=geom["z"], box=geom["B"])]
    meds = {"type": rng.choice(["iso_radius", "sigma_size"]), "min": rng.choice([2, 3, 5, 8, 16, 32]),
            "max": 0, "rmin4": rng.choice([0, 4, 8, 16]), "rfac2": rng.choice([1, 2, 3, 4]),
            "pad": rng.choice([0, 1, 2, 3]), "sfac": rng.randint(1, 6)}
    meds["max"] = rng.choice([m for m in (4, 8, 12, 24, 33, 48, 100, 256) if m >= meds["min"]])
    if boxsk:
        meds = dict(boxsk["m"])
        objs = [dict(obj(rng, nr, nc, k), rad4=boxsk["r"], box=2) for k in range(1)]
    return {"via": via, "bands": bands, "nr": nr, "nc": nc, "jac": list(rng.choice(JACS[:2] if
            via == "detect" else JACS)), "objs": objs,
            "seg": [[rng.randint(0, 3) for _ in range(nc)] for _ in range(nr)], "meds": meds,
            "with_seg": rng.randint(0, 1), "nodet": rng.choice([0, 1, 4, 6, 33, 1 << 29, -1 << 31, 4 | -1 << 31]),
            "nodet_given": rng.randint(0, 1), "sx": rng.randint(0, 3), "thresh": rng.choice([800, 1500, 5000]),
            "minarea": rng.randint(1, 5), "stamps": rng.random() < 0.6}
