"""Driving do_metadetect with scripted environments (specification: Pipeline).

A scenario is the cfg record of the specification (see Pipeline.tla) plus a few
switches only the driver needs.  Every object is one bright pixel whose value
names image set, shear type, band and object, so that the catalogue tells on
which images each number was measured.
"""
import numpy as np
from .num import fx, fxs

TYPES9 = ["noshear", "1p", "1m", "2p", "2m", "1p_psf", "1m_psf", "2p_psf", "2m_psf"]
TYPES5 = TYPES9[:5]
STEPS = {"3/5": 3.0 / 5, "4/5": 4.0 / 5, "5/13": 5.0 / 13, "1/100": 0.01}
ORTHO = [(1, 0, 0, 1), (1, 0, 0, -1), (-1, 0, 0, 1), (-1, 0, 0, -1),
         (0, 1, 1, 0), (0, 1, -1, 0), (0, -1, 1, 0), (0, -1, -1, 0)]
FWHM = 2.0        # pixels; the pixel scale is 1


def code(s, t, b, k):
    return 10000 + 10000 * s + 300 * TYPES9.index(t) + 30 * b + 3 * k


def decode(v):
    v = int(round(v)) - 10000
    s, v = divmod(v, 10000)
    t, v = divmod(v, 300)
    b, v = divmod(v, 30)
    return s, TYPES9[t], b, v // 3


# ------------------------------------------------------------------ building
def _jac(j):
    import ngmix
    d = float(j["jd"])
    return ngmix.Jacobian(
        row=j["row0"][0] / j["row0"][1], col=j["col0"][0] / j["col0"][1],
        dvdrow=j["vr"] / d, dvdcol=j["vc"] / d, dudrow=j["ur"] / d, dudcol=j["uc"] / d)


def build_set(c, s):
    import ngmix
    mb = ngmix.MultiBandObsList(meta={"set": s})
    jac = _jac(c["jac"])
    for b, bd in enumerate(c["sets"][s]["bands"]):
        pim = np.zeros((3, 3))
        pim[1, 1] = 1.0
        pim[0, 0] = 1000 * (s + 1) + b
        psf = ngmix.Observation(
            pim, weight=np.ones((3, 3)),
            jacobian=ngmix.DiagonalJacobian(row=1, col=1, scale=1.0))
        kw = {}
        if bd["m"]:
            kw["mfrac"] = np.array(bd["m"], dtype="f8") / 4
        obs = ngmix.Observation(
            np.zeros((c["nrow"], c["ncol"])), weight=np.array(bd["w"], dtype="f8"),
            bmask=np.array(bd["b"], dtype="i4"), ormask=np.array(bd["o"], dtype="i4"),
            noise=np.zeros((c["nrow"], c["ncol"])), jacobian=jac, psf=psf,
            ignore_zero_weight=False, meta={"set": s, "band": b}, **kw)
        ol = ngmix.ObsList()
        ol.append(obs)
        mb.append(ol)
    return mb


class Env:
    """scripted environment of one run; collects the event records"""

    def __init__(self, c):
        self.c, self.ev = c, []

    def metacal(self, mb, rng=None, step=None, types=None, **kw):
        import ngmix
        c, s = self.c, mb.meta["set"]
        fail = c["sets"][s]["mcal"] == 0
        self.ev.append({"op": "metacal", "set": s, "types": list(types),
                        "step": fx(step, 100000), "outcome": "fail" if fail else "ok"})
        if fail:
            raise ngmix.gexceptions.BootPSFFailure("scripted metacal failure")
        out = {}
        for t in types:
            new = ngmix.MultiBandObsList()
            for b, ol in enumerate(mb):
                obs = ol[0].copy()
                im = np.zeros((c["nrow"], c["ncol"]))
                bm = obs.bmask.copy()
                for k, o in enumerate(c["objs"][t], 1):
                    if s > 0 or b in o["bands"]:
                        im[o["r"], o["c"]] = code(s, t, b, k)
                    if b in o["nd"]:
                        bm[o["r"], o["c"]] |= c["nodet"]
                obs.set_image(im)
                obs.set_bmask(bm)
                n = ngmix.ObsList()
                n.append(obs)
                new.append(n)
            out[t] = new
        return out

    def detect(self, objs=None, seg=None, **kw):
        """the extent of every object asks for its own box size"""
        for o in objs:
            box = box_of(self.c, o["y"], o["x"])
            o["iso_radius"] = (box - 1.9) / 4
            o["flux_radius"] = (box / 2 - 0.1) / 5.0 * 2.35482 / 2
        return objs, seg

    def admom(self, obs):
        v = int(round(obs.image[0, 0]))
        if not (obs.image.shape == (3, 3) and v >= 1000):
            from ngmix import admom
            return admom.default_result(obs)
        s, b = divmod(v, 1000)
        s -= 1
        p = self.c["sets"][s]["bands"][b]["psf"]
        e = {"op": "psf", "set": s, "band": b, "flags": p["flags"]}
        if not (p["flags"] and self.ev and self.ev[-1] == e):   # retries
            self.ev.append(e)
        res = {"flags": p["flags"], "flagstr": "x" if p["flags"] else "",
               "T_flags": p["flags"], "flux_flags": 0}
        if p["flags"] == 0:
            res.update({"T": float(p["T"]), self.c["psf_key"]: np.array([p["e1"], p["e2"]]) / 1.0})
        return res

    def mom(self, fitter, obs, kw):
        if obs.image.shape == (3, 3) and obs.image[0, 0] >= 1000:
            flux, T = 1.0, 1.0
        else:
            row0, col0 = obs.jacobian.get_cen()
            r, q = int(np.rint(row0)), int(np.rint(col0))
            flux = float(obs.image[r, q])
            T = 10.0 * obs.image.shape[0]
            T += 1 + (decode(flux)[2] if flux > 5000 else self._band(obs))
        from ngmix.moments import make_mom_result
        res = make_mom_result([0, 0, 0.1 * T, 0.2 * T, T, 1.0], np.eye(6), sums_norm=1.0)
        res["flux"] = flux
        res["flux_flags"] = 0
        return res

    def _band(self, obs):
        return int(round(obs.psf.image[0, 0])) % 1000

    def color(self, flux):
        f = np.atleast_1d(flux)
        key, s = None, 0
        pos = [v for v in f if v == v and v > 5000]
        if pos:
            _, t, _, k = decode(pos[0])
            s = self.c["keys"][t][k - 1]
            if s >= 0:
                key = "key%d" % s
            s = max(s, 0)
        self.ev.append({"op": "color", "flux": fxs(f), "set": s})
        return key


def config_of(c):
    cfg = {
        "model": "wmom", "weight": {"fwhm": FWHM},
        "metacal": {"use_noise_image": True, "psf": "fitgauss"},
        "sx": {"detect_thresh": 5.0, "minarea": 1, "filter_kernel": [[1.0]],
               "filter_type": "conv", "deblend_cont": 1e-5, "deblend_nthresh": 64,
               "clean": True, "clean_param": 1.0},
        "meds": {"min_box_size": min(c["boxes"]), "max_box_size": max(c["boxes"]),
                 "box_type": c["box_type"], "rad_min": 0.25, "rad_fac": 2,
                 "box_padding": 2, "sigma_fac": 5.0},
    }
    if c["types_given"]:
        cfg["metacal"]["types"] = list(c["types"])
    if c["step_given"] != 1000:
        cfg["metacal"]["step"] = STEPS[c["step"]]
    if c["nodet"] or c["nodet_given"]:
        cfg["nodet_flags"] = c["nodet"]
    if c["bmask_flags"]:
        cfg["bmask_flags"] = c["bmask_flags"]
    for k in ("mask_region", "ormask_region"):
        if c[k] >= 0:
            cfg[k] = c[k]
    if c["mfrac_fwhm"]:
        cfg["mfrac_fwhm"] = FWHM
        cfg["weight"] = {"fwhm": 1.2}
    if c["symmetrize"] == 0:
        cfg["symmetrize"] = False
    if c.get("second"):         # a further measurement, with its own size
        first = {k: cfg.pop(k) for k in ("model", "weight", "symmetrize") if k in cfg}
        cfg["fitters"] = [first, {"model": c["second"], "weight": {"fwhm": 0.7}}]
    return cfg


def _snapshot(mbs):
    out = []
    for mb in mbs:
        for ol in mb:
            o = ol[0]
            out += [o.image.copy(), o.weight.copy(), o.bmask.copy(), o.ormask.copy(),
                    o.psf.image.copy()]
            if o.has_mfrac():
                out.append(o.mfrac.copy())
    return out


def _rows(arr, nband):
    out = []
    for i in range(arr.size):
        a = arr[i]
        out.append({
            "sb": str(a["shear_bands"]), "db": str(a["det_bands"]),
            "r": fx(a["sx_row"], 1000), "c": fx(a["sx_col"], 1000),
            "rn": fx(a["sx_row_noshear"], 1000), "cn": fx(a["sx_col_noshear"], 1000),
            "flux": fxs(a["wmom_band_flux"]), "T": fx(a["wmom_T"], 1000),
            "flags": int(a["wmom_flags"]),
            "om": int(a["ormask"]), "omn": int(a["ormask_noshear"]),
            "bm": int(a["bmask"]), "bmn": int(a["bmask_noshear"]),
            "mf": fx(a["mfrac"], 1000), "mfn": fx(a["mfrac_noshear"], 1000),
            "mfi": fx(a["mfrac_img"], 1000), "pf": int(a["psfrec_flags"]),
            "pT": fx(a["psfrec_T"], 1000), "pe1": fx(a["psfrec_g"][0], 10),
            "pe2": fx(a["psfrec_g"][1], 10)})
    return out


def run(c):
    """execute the scenario; returns the records of its history"""
    from ngmix import env
    from metadetect import metadetect as md
    env.reset()
    e = Env(c)
    env.HOOKS.update(metacal=e.metacal, admom=e.admom, mom=e.mom, detect=e.detect)
    sets = [build_set(c, s) for s in range(len(c["sets"]))]
    kw = {}
    if c["combs_given"]:
        kw["shear_band_combs"] = [list(x) for x in c["combs"]]
    if c["det_mode"] == "shear_bands":
        kw["det_band_combs"] = "shear_bands"
    elif c["det_mode"] == "list":
        kw["det_band_combs"] = [list(x) for x in c["dets"]]
    if c["colour"]:
        kw["color_key_func"] = e.color
        kw["color_dep_mbobs"] = {"key%d" % s: sets[s] for s in range(len(sets))}
    before = _snapshot(sets)
    recs = [{"op": "begin", "cfg": c}]
    keys, empty, rows = [], [], {}
    try:
        res = md.do_metadetect(config_of(c), sets[0], np.random.RandomState(11), **kw)
        if res is None:
            outcome = "none"
        else:
            outcome = "dict"
            for t, v in res.items():
                keys.append(t)
                if v is None:
                    empty.append(t)
                    rows[t] = []
                else:
                    rows[t] = _rows(v, c["nband"])
    except Exception as x:
        outcome = "raise:%s: %s" % (type(x).__name__, str(x)[:100])
    after = _snapshot(sets)
    same = all(np.array_equal(a, b) for a, b in zip(before, after))
    recs += e.ev
    rows["_"] = []
    recs.append({"op": "end", "outcome": outcome, "keys": keys, "empty": empty,
                 "rows": rows, "inputs_same": int(same)})
    env.reset()
    return recs


# ------------------------------------------------------------ interface gate
def api(scn):
    """one call at the edge of the interface; returns one api record"""
    from ngmix import env
    from metadetect import metadetect as md
    c = scn["cfg"]
    env.reset()
    e = Env(c)
    env.HOOKS.update(metacal=e.metacal, admom=e.admom, mom=e.mom, detect=e.detect)
    cfg, kw = config_of(c), {}
    mb = build_set(c, 0)
    what = scn["what"]
    call = scn["api"]
    if what in ("metacal", "meds"):
        del cfg[what]
    if what == "color_key_func":
        kw["color_key_func"] = e.color
    if what == "color_dep_mbobs":
        kw["color_dep_mbobs"] = {"key0": mb}
    if call == "joint_colour":
        cfg["model"] = what
        if what in ("am", "admom", "gauss"):
            del cfg["weight"]
        kw = {"color_key_func": e.color, "color_dep_mbobs": {"key0": mb}}
    try:
        rng = np.random.RandomState(5)
        if call == "result_before_go":
            m = md.Metadetect(cfg, mb, rng)
            r = m.result
        else:
            r = md.do_metadetect(cfg, mb, rng, **kw)
        outcome = "ok"
    except Exception as x:
        outcome = "raise:%s" % type(x).__name__
    rec = {"op": "api", "call": call, "what": what, "outcome": outcome,
           "worked": int(bool(e.ev))}
    env.reset()
    return [rec]


# ------------------------------------------- a masked-fraction image directly
def gen_mf(rng):
    nr, nc = rng.randint(3, 10), rng.randint(3, 10)
    objs = []
    for _ in range(rng.randint(0, 5)):
        objs.append({"r": rng.randrange(nr) if rng.random() < .8 else rng.randint(nr, nr + 9),
                     "c": rng.randrange(nc) if rng.random() < .8 else rng.randint(nc, nc + 9),
                     "box": rng.choice([0, 2, 4, 6, 6, 8])})
    m0 = rng.choice([0, 1, 1])
    return {"mf": 1, "nrow": nr, "ncol": nc, "objs": objs, "fwhm": rng.choice([200, 200, 100, 50, 120, -1]),
            "m": _grid(nr, nc, lambda r, q: m0 * rng.choice([0, 0, 1, 2, 3, 4])),
            "w": _grid(nr, nc, lambda r, q: rng.randint(1, 9))}


def direct_mf(c):
    import ngmix
    from metadetect.mfrac import measure_mfrac
    rec = dict(c, op="mf", out=[])
    psf = ngmix.Observation(np.ones((3, 3)), jacobian=ngmix.DiagonalJacobian(row=1, col=1, scale=1.0))
    rng = np.random.RandomState(8)
    obs = ngmix.Observation(
        rng.normal(size=(c["nrow"], c["ncol"])), weight=np.array(c["w"], dtype="f8"),
        bmask=np.zeros((c["nrow"], c["ncol"]), dtype="i4"), psf=psf,
        jacobian=ngmix.DiagonalJacobian(row=1, col=2, scale=1.0))
    m = np.array(c["m"], dtype="f8") / 4
    a = [np.array([o[k] for o in c["objs"]], dtype=t)
         for k, t in (("c", "f8"), ("r", "f8"), ("box", "i4"))]
    given = [m, obs.image, obs.weight, obs.bmask] + a
    before = [x.copy() for x in given]
    try:
        res = measure_mfrac(mfrac=m, x=a[0], y=a[1], box_sizes=a[2], obs=obs,
                            fwhm=None if c["fwhm"] < 0 else c["fwhm"] / 100)
        rec.update(outcome="ok", out=[fx(v, 1000) for v in res])
    except Exception as x:
        rec["outcome"] = "raise:%s: %s" % (type(x).__name__, str(x)[:100])
    rec["inputs_same"] = int(all(np.array_equal(x, y) for x, y in zip(
        [m, obs.image, obs.weight, obs.bmask] + a, before)))
    return [rec]


def execute(scn):
    if "mf" in scn:
        return direct_mf(scn)
    return api(scn) if "api" in scn else run(scn)


def api_scenarios(rng):
    out = []
    for call, whats in (("result_before_go", [""]),
                        ("bad_config", ["metacal", "meds", "color_key_func", "color_dep_mbobs"]),
                        ("joint_colour", ["am", "admom", "gauss"])):
        for w in whats:
            out.append({"api": call, "what": w,
                        "cfg": dict(gen(rng, nband=2, style="plain", combs=None, nobj=2),
                                    second="")})
    return out


# --------------------------------------------- catalogue rows for ShearPos
def shearpos_runs(ctx):
    out = []
    for _ in range(ctx.pick(12, 80)):
        c = gen(ctx.rng, types=ctx.rng.sample(TYPES9, 3) + ["1p", "2m"], nobj=3,
                style="plain", step=ctx.rng.choice(["3/5", "4/5", "5/13", "1/100"]))
        c["types"] = sorted(set(c["types"]))
        m = ctx.rng.choice([(1, 0, 0, 1), (2, 1, 0, 3), (0, 2, -2, 0), (1, 0, 0, -1), (3, 1, -1, 2)])
        c["jac"].update(vr=m[0], vc=m[1], ur=m[2], uc=m[3], jd=ctx.rng.choice([1, 2]))
        out.append({"kind": "run", "cfg": c})
    return out


def shearpos_records(scn):
    c = scn["cfg"]
    out = []
    end = run(c)[-1]
    for t, rows in end["rows"].items():
        for r in rows:
            out.append({"op": "row", "row": r["r"] // 500, "col": r["c"] // 500, "type": t,
                        "step": c["step"], "jac": c["jac"], "dims": [c["nrow"], c["ncol"]],
                        "orow": r["rn"], "ocol": r["cn"]})
    if end["outcome"] != "dict" and end["outcome"] != "none":
        raise RuntimeError(end["outcome"])
    return out


# ---------------------------------------------------------------- generation
def _grid(nr, nc, f):
    return [[f(r, q) for q in range(nc)] for r in range(nr)]


def gen_band(rng, nr, nc, style):
    w0 = rng.randint(1, 9)
    holes = rng.random() * (0.12 if style != "holes" else 0.4)
    w = _grid(nr, nc, lambda r, q: 0 if rng.random() < holes else w0)
    if style == "wvar":
        w = _grid(nr, nc, lambda r, q: rng.choice([0, w0, w0, w0 + 2]))
    b = _grid(nr, nc, lambda r, q: rng.choice([-1 << 31] + [1 << k for k in range(7)]) if rng.random() < 0.12 else 0)
    o = _grid(nr, nc, lambda r, q: rng.choice([-1 << 31] + [1 << k for k in range(21)]) if rng.random() < 0.25 else 0)
    u = rng.random()
    if u < 0.2:
        m = []
    elif u < 0.3:
        m = _grid(nr, nc, lambda r, q: 0)
    else:
        m = _grid(nr, nc, lambda r, q: rng.choice([0, 0, 0, 1, 2, 3, 4]))
    return {"w": w, "b": b, "o": o, "m": m,
            "psf": {"flags": 0, "T": rng.randint(1, 40), "e1": rng.randint(-20, 20),
                    "e2": rng.randint(-20, 20)}}


def place(rng, nr, nc, n, whole=False):
    """n isolated pixels in raster order"""
    pts = []
    for _ in range(200):
        if len(pts) >= n:
            break
        r, q = rng.randrange(nr), rng.randrange(nc)
        if whole:       # unshear exactly to pixels with step 3/5
            r = min(nr - 1, max(0, (nr - 1) // 2 + 4 * rng.randint(-1, 1)))
            q = min(nc - 1, max(0, (nc - 1) // 2 + 4 * rng.randint(-1, 1)))
        if all(max(abs(r - a), abs(q - b)) > 1 for a, b in pts):
            pts.append((r, q))
    return sorted(pts)


def box_of(c, r, q):
    """box size of an object at a pixel (so that every shear type agrees on it)"""
    return c["boxes"][(3 * int(r) + 5 * int(q)) % len(c["boxes"])]


def stamps_ok(c, pts):
    """no stamp of an object is free of weight in any band of any set (the data
    container cannot represent it)"""
    for r, q in pts:
        box = box_of(c, r, q)
        h = box // 2
        r0, q0 = max(0, r - h + 1), max(0, q - h + 1)
        for s in c["sets"]:
            for bd in s["bands"]:
                w = np.array(bd["w"])[r0:r0 + box, q0:q0 + box]
                if not (w > 0).any():
                    return False
    return True


def gen(rng, **kw):
    """a random scenario; kw: nband, colour, nset, combs, det_mode, gate, psf_fail,
    mcal_fail, styles..."""
    nr, nc = rng.choice([9, 11, 13, 15]), rng.choice([9, 11, 13, 15])
    sk = kw.pop("skeleton", None)
    if sk is not None:
        cond = any(k for ks in sk["keys"] for k in list(ks)) or rng.random() < 0.5
        kw.update(nband=sk["nband"], colour=int(cond), ncol=sk["ncol"],
                  combs=[list(x) for x in sk["combs"]],
                  types=rng.sample(TYPES9, len(sk["keys"])),
                  psf_fail=[list(x) for x in sk["bad"]],
                  mcal_fail=list(sk["mfail"]), bmask_flags=kw.get("bmask_flags", 0))
        if not cond:
            kw["psf_fail"] = [x for x in kw["psf_fail"] if x[0] == 0]
            kw["mcal_fail"] = [x for x in kw["mcal_fail"] if x == 0]
    nband = kw.get("nband") or rng.randint(1, 3)
    colour = int(kw.get("colour", 0))
    nset = 1 + (kw.get("ncol") or rng.randint(1, 2) if colour else 0)
    c = {"nrow": nr, "ncol": nc, "nband": nband, "colour": colour}
    m = rng.choice(ORTHO)
    c["jac"] = {"vr": m[0], "vc": m[1], "ur": m[2], "uc": m[3], "jd": 1,
                "row0": [rng.randint(0, 2 * nr), 2], "col0": [rng.randint(0, 2 * nc), 2]}
    if kw.get("box"):
        c["boxes"] = [kw["box"]]
    else:
        c["boxes"] = [rng.choice([4, 6, 8]) for _ in range(rng.choice([1, 3, 5]))]
    c["box_type"] = rng.choice(["iso_radius", "sigma_size"])
    # types
    c["types_given"] = int(rng.random() < 0.5)
    if c["types_given"]:
        n = rng.randint(1, 4)
        c["types"] = rng.sample(TYPES9, n)
    else:
        c["types"] = list(TYPES5)
    c["types"] = kw.get("types", c["types"])
    if "types" in kw:
        c["types_given"] = 1
    c["step"] = kw.get("step") or rng.choice(["3/5", "3/5", "4/5", "1/100"])
    c["step_given"] = fx(STEPS[c["step"]], 100000)
    c["psf_key"] = rng.choice(["e", "e", "g"])
    # flags
    c["nodet"] = kw.get("nodet", rng.choice([0, 0, 1, 3, 16, -1 << 31]))
    c["nodet_given"] = rng.randint(0, 1)
    c["bmask_flags"] = kw.get("bmask_flags", rng.choice([0, 0, 0, 2, 2**30, -1 << 31]))
    c["mask_region"] = kw.get("mask_region", rng.choice([-1, 0, 1, 2, 3]))
    c["ormask_region"] = kw.get("ormask_region", rng.choice([-1, -1, 0, 1, 2, 4]))
    c["mfrac_fwhm"] = rng.randint(0, 1)
    c["second"] = rng.choice(["", "", "", "pgauss", "ksigma"])
    c["symmetrize"] = 1 if colour else rng.choice([1, 1, 0])
    # combinations
    if "combs" in kw:
        c["combs_given"], c["combs"] = (0, []) if kw["combs"] is None else (1, kw["combs"])
    elif rng.random() < 0.25:
        c["combs_given"], c["combs"] = 0, []
    else:
        c["combs_given"] = 1
        c["combs"] = [rng.sample(range(nband), rng.randint(1, nband))
                      for _ in range(rng.randint(1, 3))]
    ncomb = len(c["combs"]) if c["combs_given"] else 1
    c["det_mode"] = kw.get("det_mode") or rng.choice(["default", "shear_bands", "list"])
    c["dets"] = []
    if c["det_mode"] == "list":
        c["dets"] = [rng.sample(range(nband), rng.randint(1, nband)) for _ in range(ncomb)]
    if "dets" in kw:
        c["dets"] = kw["dets"]
    # sets
    style = kw.get("style") or rng.choice(["plain", "plain", "holes", "wvar"])
    for _ in range(50):
        c["sets"] = [{"bands": [gen_band(rng, nr, nc, style) for _ in range(nband)], "mcal": 1}
                     for _ in range(nset)]
        c["objs"], c["keys"] = {}, {}
        whole = rng.random() < 0.6 and c["step"] == "3/5"
        allpts = []
        nobj = kw.get("nobj")
        for it, t in enumerate(c["types"]):
            if sk is not None:
                nobj = len(sk["keys"][it])
            pts = place(rng, nr, nc, nobj if nobj is not None else rng.choice([0, 1, 2, 3, 4]),
                        whole)
            allpts += pts
            c["objs"][t] = [
                {"r": r, "c": q, "box": box_of(c, r, q),
                 "bands": rng.sample(range(nband), rng.randint(1, nband)),
                 "nd": (rng.sample(range(nband), 1) if rng.random() < 0.15
                        and not c["nodet"] & c["bmask_flags"] else [])}
                for r, q in pts]
            c["keys"][t] = [rng.choice([-1] + list(range(nset))) for _ in pts]
            if sk is not None and colour:
                c["keys"][t] = [k or rng.choice([-1, 0]) for k in list(sk["keys"][it])[:len(pts)]]
                for o in c["objs"][t]:
                    o["bands"], o["nd"] = list(range(nband)), []
        if stamps_ok(c, allpts):
            break
    else:
        for s in c["sets"]:
            for bd in s["bands"]:
                bd["w"] = _grid(nr, nc, lambda r, q: 3)
    if kw.get("psf_fail") is not None:
        for s, b in kw["psf_fail"]:
            c["sets"][s % nset]["bands"][b % nband]["psf"]["flags"] = rng.choice([1, 4, 64])
    for s in kw.get("mcal_fail", ()):
        c["sets"][s % nset]["mcal"] = 0
    gate = kw.get("gate", "open")
    bands = c["sets"][0]["bands"]
    if gate == "noweight":
        bands[rng.randrange(nband)]["w"] = _grid(nr, nc, lambda r, q: 0)
    elif gate == "nearly_noweight":
        pass
    elif gate == "nodet":
        c["nodet"] = c["nodet"] or 1
        x = rng.randrange(nband)
        bands[x]["b"] = _grid(nr, nc, lambda r, q: rng.choice([c["nodet"], c["nodet"] | 4]))
        if kw.get("but_one"):
            bands[x]["b"][rng.randrange(nr)][rng.randrange(nc)] = 0
    elif gate == "mfrac":
        for bd in bands:
            bd["m"] = _grid(nr, nc, lambda r, q: 4)
        if kw.get("but_one"):
            bands[rng.randrange(nband)]["m"][rng.randrange(nr)][rng.randrange(nc)] = \
                rng.choice([0, 3])
    return c
