"""Masks, apodisation and interpolation (specification: Masking, Interp)."""
import copy
import numpy as np
from .num import fx, grid, igrid
from . import drv_joint


class Rng(np.random.RandomState):
    """a generator whose normal() is recorded (and scripted)"""

    def __init__(self, const=None):
        super().__init__(17)
        self.const, self.calls = const, []

    def normal(self, loc=0.0, scale=1.0, size=None):
        v = super().normal(loc=loc, scale=scale, size=size)
        if self.const is not None:
            v = np.zeros_like(v) + self.const
        s = float(np.asarray(scale))
        self.calls.append({"n": int(np.size(v)), "scale2inv": fx(1 / s**2, 1000),
                           "vals": [fx(x, 1000) for x in np.ravel(v)]})
        return v


def arrays(holes):
    return (np.array([h["x"] / 4 for h in holes]), np.array([h["y"] / 4 for h in holes]),
            np.array([h["r"] / 4 for h in holes]))


def run_masks(scn):
    from metadetect import masking
    recs = []
    x, y, r = arrays(scn["holes"])
    keep = (x.copy(), y.copy(), r.copy())
    dims = (scn["nr"], scn["nc"])
    base = {"nr": scn["nr"], "nc": scn["nc"], "holes": scn["holes"], "sym": scn["sym"]}
    rec = dict(base, op="bmask", flag=scn["flag"], got=[])
    try:
        m = masking.make_foreground_bmask(xm=x, ym=y, rm=r, dims=dims, symmetrize=bool(scn["sym"]),
                                          mask_bit_val=scn["flag"])
        rec["got"], rec["outcome"] = igrid(m), "ok"
    except Exception as e:
        rec["outcome"] = "raise:" + type(e).__name__
    rec["inputs_same"] = int(all(np.array_equal(a, b) for a, b in zip(keep, (x, y, r))))
    recs.append(rec)
    rec = dict(base, op="apmask", h=scn["h"], got=[])
    try:
        m = masking.make_foreground_apodization_mask(
            xm=x, ym=y, rm=r, dims=dims, symmetrize=bool(scn["sym"]), ap_rad=scn["h"] / 4)
        rec["got"], rec["outcome"] = grid(m, 30000), "ok"
    except Exception as e:
        rec["outcome"] = "raise:" + type(e).__name__
    rec["inputs_same"] = int(all(np.array_equal(a, b) for a, b in zip(keep, (x, y, r))))
    recs.append(rec)
    return recs


def run_expand(scn):
    """a star mask with and without an enlarged radius"""
    out = []
    rec = {"op": "expand", "nr": scn["nr"], "nc": scn["nc"], "expand": scn["op_"]["expand"], "sym": scn["op_"]["sym"],
           "holes": scn["op_"]["holes"], "ebit": scn["op_"]["ebit"], "plain": [], "got": [], "rest_same": 0}
    try:
        for expand in (0, scn["op_"]["expand"]):
            mb = build(scn["bands"])
            apply(mb, dict(scn["op_"], expand=expand), Rng())
            out.append(planes(mb))
        rec["plain"], rec["got"] = [[b["bm"] for b in o] for o in out]
        rec["rest_same"] = int(all(a[k] == b[k] for a, b in zip(*out) for k in a if k != "bm"))
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = "raise:" + type(e).__name__
    return [rec]


def run_edge(scn):
    import ngmix
    from metadetect import masking
    nr, nc = scn["nr"], scn["nc"]
    mb = ngmix.MultiBandObsList()
    for b in range(scn["nb"]):
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation(
            np.ones((nr, nc)), weight=np.ones((nr, nc)), noise=np.ones((nr, nc)),
            bmask=np.zeros((nr, nc), dtype="i4"), jacobian=ngmix.UnitJacobian(row=0, col=0)))
        mb.append(ol)
    rec = {"op": "edge", "nr": nr, "nc": nc, "h": scn["h"], "got": [], "alike": 0}
    try:
        masking.apply_apodization_corrections(mbobs=mb, ap_rad=scn["h"] / 4, mask_bit_val=1)
        o = mb[0][0]
        rec["got"] = grid(o.image, 30000)
        rec["alike"] = int(all(np.array_equal(x[0].image, o.image) and np.array_equal(x[0].noise, o.image)
                               for x in mb))
        rec["outcome"] = "ok"
    except Exception as e:
        rec["outcome"] = "raise:" + type(e).__name__
    return [rec]


# ------------------------------------------------------------------ histories
def build(bands):
    import ngmix
    mb = ngmix.MultiBandObsList()
    for bd in bands:
        ol = ngmix.ObsList()
        kw = {"mfrac": np.array(bd["mf"], dtype="f8")} if bd["mf"] else {}
        w = np.array(bd["w"], dtype="f8")
        ol.append(ngmix.Observation(
            np.array(bd["im"], dtype="f8"), weight=w, noise=np.array(bd["no"], dtype="f8"),
            bmask=np.array(bd["bm"], dtype="i4"), jacobian=ngmix.UnitJacobian(row=0, col=0),
            ignore_zero_weight=bool(np.any(w > 0)), **kw))
        mb.append(ol)
    return mb


def planes(mb):
    out = []
    for ol in mb:
        o = ol[0]
        out.append({"im": grid(o.image, 1000), "no": grid(o.noise, 1000), "w": grid(o.weight),
                    "bm": igrid(o.bmask), "mf": grid(o.mfrac, 1000) if hasattr(o, "mfrac") else []})
    return out


def apply(mb, op, rng):
    from metadetect import masking
    if op["what"] == "edge":
        masking.apply_apodization_corrections(mbobs=mb, ap_rad=op["h"] / 4, mask_bit_val=op["bit"])
        return
    x, y, r = arrays(op["holes"])
    masking.apply_foreground_masking_corrections(
        mbobs=mb, xm=x, ym=y, rm=r, method=op["what"], mask_expand_rad=op["expand"] / 4,
        mask_bit_val=op["bit"], expand_mask_bit_val=op["ebit"], interp_bit_val=op["ibit"],
        symmetrize=bool(op["sym"]), ap_rad=op["h"] / 4, iso_buff=op["iso"], rng=rng)


def zone(op, nr, nc):
    """only used to keep scenarios where interpolation is possible"""
    z = np.zeros((nr, nc), bool)
    yy, xx = np.mgrid[0:nr, 0:nc]
    for h in op["holes"]:
        z |= (yy * 4 - h["y"])**2 + (xx * 4 - h["x"])**2 < h["r"]**2
    if op["sym"]:
        z |= np.rot90(z)
    return z


def near(bad, buff):
    out = np.zeros_like(bad)
    for r, c in zip(*np.nonzero(bad)):
        out[max(0, r - buff):r + buff + 1, max(0, c - buff):c + buff + 1] = True
    return out & ~bad


def spans(good):
    p = np.argwhere(good)
    if len(p) < 3:
        return False
    d = p - p[0]
    return bool(np.any(d[:, 0] * d[-1, 1] - d[:, 1] * d[-1, 0])) or \
        bool(np.linalg.matrix_rank(d) == 2)


def run_hist(scn):
    mb = build(scn["bands"])
    nr, nc = scn["nr"], scn["nc"]
    recs = []
    for k, op in enumerate(scn["ops"]):
        before = planes(mb)
        rng = Rng()
        per = []
        if op["what"] == "nonsense":
            try:
                apply(mb, op, rng)
                out = "ok"
            except Exception as e:
                out = "raise:" + type(e).__name__
            recs.append({"op": "badmethod", "outcome": out, "same": int(planes(mb) == before)})
            continue
        if op["what"].startswith("interp"):
            z = zone(op, nr, nc)
            ok = z.all() or not z.any() or spans(near(z, 4))
            if op["what"] == "interp-noise" and not z.all():
                ok = ok and all(np.any(np.asarray(b[0].weight)[~z] > 0) for b in mb)
            if not ok:
                continue
        try:
            # one band at a time cannot be observed: the draws are split by band afterwards
            apply(mb, op, rng)
            out = "ok"
        except Exception as e:
            out = "raise:%s:%s" % (type(e).__name__, str(e)[:80])
        n = len(scn["bands"])
        m = len(rng.calls) // n if n else 0
        per = [[{"scale2inv": fx(c["scale2inv"] / 500)} for c in rng.calls[b * m:(b + 1) * m]]
               for b in range(n)]
        recs.append({"op": "step", "nr": nr, "nc": nc, "step": {
            k2: op[k2] for k2 in ("what", "holes", "sym", "h", "bit", "ibit", "expand", "ebit")},
            "before": before, "after": planes(mb), "draws": per,
            "lin": scn["lin"] if k == 0 and scn["lin"] else [], "outcome": out})
        if out != "ok":
            break
    return recs


# ------------------------------------------------------------------ interpolation
def run_interp(scn):
    from metadetect.interpolate import interpolate_image_at_mask as f
    im = np.array(scn["im"], dtype="f8")
    bad = np.zeros(im.shape, bool)
    for r, c in scn["bad"]:
        bad[r, c] = True
    if scn["junk"] == "nan":
        im[bad] = np.nan
    elif scn["junk"] == "big":
        im[bad] = 1e8
    kw = {}
    if not scn["default_frac"]:
        kw["maxfrac"] = scn["maxnum"] / scn["maxden"]
    if not scn["default_buff"]:
        kw["buff"] = scn["buff"]
    if not scn["default_iso"]:
        kw["iso_buff"] = scn["iso"]
    if scn["noise"]:
        kw["fill_isolated_with_noise"] = True
    if scn["hasw"]:
        kw["weight"] = float(scn["weight"])
    const = scn["lin"][0] if scn["lin"] and scn["lin"][1:] == [0, 0] else None

    def call(image):
        k = dict(kw)
        rng = Rng(const)
        if scn["hasrng"]:
            k["rng"] = rng
        try:
            res = f(image=image, bad_msk=bad, **k)
            return ("none" if res is None else "image"), res, rng.calls
        except Exception as e:
            return "raise:" + type(e).__name__, None, rng.calls
    keep = (im.copy(), bad.copy())
    out, res, calls = call(im)
    rec = {k: scn[k] for k in ("nr", "nc", "bad", "maxnum", "maxden", "buff", "iso", "noise",
                               "hasrng", "hasw", "weight", "lin")}
    rec.update(op="interp", outcome=out, draws=calls, out=[], good_same=0, pair_same=0,
               inputs_same=int(np.array_equal(im, keep[0], equal_nan=True) and np.array_equal(bad, keep[1])))
    if out == "image":
        rec["out"] = grid(res, 1000)
        rec["good_same"] = int(np.array_equal(res[~bad], keep[0][~bad]))
        other = keep[0].copy()
        used = near(bad, scn["buff"])
        if scn["noise"]:      # isolated pixels count as unmasked once they are filled
            used = np.zeros_like(bad)
            iso = np.array([[bad[r, c] and bad[max(0, r - scn["iso"]):r + scn["iso"] + 1,
                                              max(0, c - scn["iso"]):c + scn["iso"] + 1].all()
                             for c in range(scn["nc"])] for r in range(scn["nr"])])
            used = near(bad & ~iso, scn["buff"]) & ~bad
        other[~used] = 333.25
        o2, r2, _ = call(other)
        rec["pair_same"] = int(o2 == "image" and np.array_equal(r2[bad], res[bad], equal_nan=True))
    return [rec]


def execute(scn):
    return {"masks": run_masks, "expand": run_expand, "edge": run_edge, "hist": run_hist, "interp": run_interp}[scn["op"]](scn)


# ------------------------------------------------------------------ scenarios
def hole(rng, nr, nc, small=False):
    t = rng.random()
    if t < 0.5:
        x, y = rng.randint(0, 4 * nc - 4), rng.randint(0, 4 * nr - 4)
    else:
        x, y = rng.randint(-30, 4 * nc + 26), rng.randint(-30, 4 * nr + 26)
    r = rng.choice([0, 1, 2, 4, 5, 8, 12] if small else [0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 20, 28, 40])
    return {"x": x, "y": y, "r": r}


def gen_masks(rng):
    nr, nc = rng.randint(1, 14), rng.randint(1, 14)
    sym = rng.randint(0, 1)
    if sym:
        nc = nr
    return {"op": "masks", "nr": nr, "nc": nc, "sym": sym, "h": rng.choice([1, 2, 3, 4, 6, 8, 10]),
            "holes": [hole(rng, nr, nc) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
            "flag": rng.choice([1, 2, 64, 1 << 20, 1 << 30])}


def gen_expand(rng):
    nr, nc = rng.randint(2, 10), rng.randint(2, 10)
    sym = rng.randint(0, 1)
    if sym:
        nc = nr
    what = rng.choice(["apodize", "apodize", "interp"])
    g = lambda a, b: [[rng.randint(a, b) for _ in range(nc)] for _ in range(nr)]     # noqa
    while True:
        op = {"what": what, "sym": sym, "h": rng.choice([1, 2, 3, 6]), "bit": rng.choice([1, 4, 1 << 29]), "ibit": 8,
              "holes": [hole(rng, nr, nc, True) for _ in range(rng.choice([1, 1, 2, 3]))], "iso": 1,
              "expand": rng.choice([1, 2, 3, 6, 10, 20]), "ebit": rng.choice([2, 32, 1 << 30])}
        z = zone(op, nr, nc)
        if what == "apodize" or z.all() or not z.any() or spans(near(z, 4)):
            break
    bands = [{"im": g(-50, 50), "no": g(-9, 9), "w": g(1, 4),
              "bm": [[rng.choice([0, 0, 2, 64]) for _ in range(nc)] for _ in range(nr)],
              "mf": [] if rng.random() < 0.5 else g(0, 1)} for _ in range(rng.choice([1, 2]))]
    return {"op": "expand", "nr": nr, "nc": nc, "op_": op, "bands": bands}


def gen_edge(rng):
    return {"op": "edge", "nr": rng.randint(1, 26), "nc": rng.randint(1, 26), "nb": rng.randint(1, 2),
            "h": rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])}


def gen_op(rng, nr, nc):
    what = rng.choice(["edge", "apodize", "interp", "interp-noise"])
    return {"what": what, "sym": rng.randint(0, 1) if nr == nc else 0,
            "holes": [] if what == "edge" else [hole(rng, nr, nc, True) for _ in range(rng.choice([0, 1, 1, 2]))],
            "h": rng.choice([1, 2, 3]) if what == "edge" else rng.choice([1, 2, 3, 6]),
            "bit": rng.choice([1, 2, 4, 1 << 29]), "ibit": rng.choice([8, 16]),
            "expand": rng.choice([0, 0, 2, 6, 20]), "ebit": rng.choice([2, 32]), "iso": rng.choice([1, 2])}


def gen_hist(rng, sk=None):
    nr, nc = rng.randint(3, 8), rng.randint(3, 8)
    if sk:
        nr = nc = sk["n"]
        ops = [dict(o, iso=1) for o in sk["ops"]]
    else:
        if rng.random() < 0.5:
            nc = nr
        ops = [gen_op(rng, nr, nc) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.04:
            ops.append(dict(gen_op(rng, nr, nc), what="nonsense"))
    bands, lins = [], []
    lin = rng.random() < 0.6
    mf = rng.randint(0, 1)
    for _ in range(rng.choice([1, 2, 3])):
        L = {p: [rng.randint(-9, 9), rng.randint(-3, 3), rng.randint(-3, 3)] for p in ("im", "no")}
        p = rng.choice([0, 0, 0.2])
        w0 = rng.randint(1, 9)
        g = lambda lo, hi: [[rng.randint(lo, hi) for _ in range(nc)] for _ in range(nr)]   # noqa
        w = [[0 if rng.random() < p else w0 + rng.choice([0, 0, 3]) for _ in range(nc)] for _ in range(nr)]
        if not any(map(any, w)):
            w[0][0] = 1
        bands.append({
            "im": [[L["im"][0] + L["im"][1] * r + L["im"][2] * c for c in range(nc)] for r in range(nr)]
            if lin else g(-40, 40),
            "no": [[L["no"][0] + L["no"][1] * r + L["no"][2] * c for c in range(nc)] for r in range(nr)]
            if lin else g(-9, 9),
            "w": w, "bm": [[rng.choice([0, 0, 1, 8, 34, 1 << 28]) for _ in range(nc)] for _ in range(nr)],
            "mf": [[rng.choice([0, 0, 0.25, 0.5, 1]) for _ in range(nc)] for _ in range(nr)] if mf else []})
        lins.append(L)
    return {"op": "hist", "nr": nr, "nc": nc, "bands": bands, "ops": ops, "lin": lins if lin else []}


def gen_interp(rng, sk=None):
    while True:
        if sk:
            nr, nc, bad = sk["nr"], sk["nc"], [list(p) for p in sk["bad"]]
            iso = sk["iso"]
            msk = np.zeros((nr, nc), bool)
            for r, c in bad:
                msk[r, c] = True
        else:
            nr, nc = rng.randint(2, 12), rng.randint(2, 12)
            iso = rng.choice([0, 1, 1, 2, 3])
            msk = np.zeros((nr, nc), bool)
            t = rng.random()
            if t < 0.04:
                pass
            elif t < 0.08:
                msk[:] = True
            elif t < 0.5:
                for _ in range(rng.randint(1, 2)):
                    a, b = rng.randint(-3, nr - 1), rng.randint(-3, nc - 1)
                    msk[max(0, a):max(0, a + rng.randint(1, 7)), max(0, b):max(0, b + rng.randint(1, 7))] = True
            else:
                p = rng.choice([0.05, 0.3, 0.6, 0.9])
                for r in range(nr):
                    for c in range(nc):
                        msk[r, c] = rng.random() < p
            bad = [[int(r), int(c)] for r, c in np.argwhere(msk)]
        lin = rng.choice([[], [rng.randint(-9, 9), rng.randint(-3, 3), rng.randint(-3, 3)],
                          [rng.randint(1, 9), 0, 0]])
        noise = rng.randint(0, 1)
        if noise and lin and lin[1:] != [0, 0]:
            lin = [lin[0] or 4, 0, 0]
        dflt = [rng.random() < 0.5 for _ in range(3)]
        if sk:
            dflt[2] = False
        mx = [9, 10] if dflt[0] else rng.choice([[1, 1], [1, 2], [3, 10], [9, 10]])
        if not dflt[0] and rng.random() < 0.3 and bad:
            mx = [len(bad) + rng.choice([0, 0, -1]), nr * nc]
        buff = 4 if dflt[1] else rng.choice([1, 2, 3, 5])
        iso = 1 if dflt[2] else iso
        isom = np.zeros_like(msk)
        if noise:
            for r, c in bad:
                isom[r, c] = msk[max(0, r - iso):r + iso + 1, max(0, c - iso):c + iso + 1].all()
        rest = msk & ~isom
        if msk.all() or len(bad) * mx[1] > mx[0] * nr * nc or not rest.any() or spans(near(rest, buff)):
            break
        if sk:
            return None
    im = [[(lin[0] + lin[1] * r + lin[2] * c) if lin else rng.randint(-40, 40) for c in range(nc)]
          for r in range(nr)]
    return {"op": "interp", "nr": nr, "nc": nc, "bad": bad, "im": im, "lin": lin, "noise": noise,
            "maxnum": mx[0], "maxden": mx[1], "buff": buff, "iso": iso, "default_frac": dflt[0],
            "default_buff": dflt[1], "default_iso": dflt[2], "weight": rng.choice([1, 4, 25]),
            "hasrng": int(not noise or rng.random() < 0.9), "hasw": int(not noise or rng.random() < 0.9),
            "junk": rng.choice(["", "nan", "big"])}
