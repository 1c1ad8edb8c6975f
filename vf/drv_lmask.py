"""Edge and bright star masking of exposures (specification: BandMask)."""
import numpy as np
from .num import grid, igrid
from .drv_lexp import exposure, raised

RA0 = None
EXPAND = 64


def snap(mb, nmb, fmb, orm):
    out = {"im": [grid(x.image.array, 1000) for x in mb.singles],
           "var": [grid(x.variance.array, 1000) for x in mb.singles],
           "mask": [igrid(x.mask.array) for x in mb.singles], "nim": [], "nvar": [], "nmask": [], "mf": [], "om": []}
    if nmb is not None:
        out["nim"] = [grid(x.image.array, 1000) for x in nmb.singles]
        out["nvar"] = [grid(x.variance.array, 1000) for x in nmb.singles]
        out["nmask"] = [igrid(x.mask.array) for x in nmb.singles]
    if fmb is not None:
        out["mf"] = [grid(x.image.array, 1000) for x in fmb.singles]
    if orm is not None:
        out["om"] = [igrid(m) for m in orm]
    return out


def run(scn):
    from metadetect.lsst import util, masking
    from lsst.afw.image import Mask
    from lsst.geom import Point2D
    names = scn["names"]

    def mbexp(es):
        return util.get_mbexp([exposure(e, [[1]], b) for e, b in zip(es, names)])
    mb = mbexp(scn["exps"])
    nmb = mbexp(scn["noise"]) if scn["noise"] else None
    fmb = mbexp(scn["mfrac"]) if scn["mfrac"] else None
    orm = [np.array(m, dtype="i4") for m in scn["ormasks"]] if scn["ormasks"] else None
    wcs = mb.singles[0].getWcs()
    recs = []
    for st in scn["ops"]:
        before = snap(mb, nmb, fmb, orm)
        kw = {}
        if nmb is not None or scn["explicit"]:
            kw["noise_mbexp"] = nmb
        if fmb is not None or scn["explicit"]:
            kw["mfrac_mbexp"] = fmb
        if orm is not None or scn["explicit"]:
            kw["ormasks"] = orm
        info = np.zeros(len(st["stars"]), dtype=[("ra", "f8"), ("dec", "f8"), ("radius_pixels", "f8")])
        for i, s in enumerate(st["stars"]):
            p = wcs.pixelToSky(Point2D(s["x"] / 4, s["y"] / 4))
            info["ra"][i], info["dec"][i] = p.getRa().asDegrees(), p.getDec().asDegrees()
            info["radius_pixels"][i] = s["r"] / 4
        keep = info.copy()
        try:
            if st["what"] == "edge":
                masking.apply_apodized_edge_masks_mbexp(mbexp=mb, **kw)
            else:
                masking.apply_apodized_bright_masks_mbexp(mbexp=mb, bright_info=info, **kw)
            out = "ok"
        except Exception as e:
            out = raised(e)
        bits = {}
        for k, n in (("edge", "APODIZED_EDGE"), ("bright", "BRIGHT"), ("expanded", "BRIGHT_EXPANDED")):
            Mask.addMaskPlane(n)
            bits[k] = int(Mask.getPlaneBitMask(n))
        e0 = scn["exps"][0]
        recs.append({"op": "bandmask", "nr": len(e0["im"]), "nc": len(e0["im"][0]), "ox": e0["x"], "oy": e0["y"],
                     "step": st, "bits": bits, "before": before, "after": snap(mb, nmb, fmb, orm), "outcome": out,
                     "inputs_same": int(np.array_equal(keep, info))})
        if out != "ok":
            break
    return recs


execute = run


def boundary(stars, ox, oy, nr, nc):
    """a pixel centre lies exactly on a circle: rounding of the sky position decides"""
    yy, xx = np.mgrid[0:nr, 0:nc]
    for s in stars:
        d2 = (4 * yy + 4 * oy - s["y"])**2 + (4 * xx + 4 * ox - s["x"])**2
        if s["r"] and (d2 == s["r"]**2).any():
            return True
        if (d2 == (s["r"] + EXPAND)**2).any():
            return True
    return False


def gen_stars(rng, ox, oy, nr, nc):
    while True:
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            t = rng.random()
            if t < 0.4:
                x, y = rng.randint(-4, 4 * nc), rng.randint(-4, 4 * nr)
            else:
                x, y = rng.randint(-90, 4 * nc + 86), rng.randint(-90, 4 * nr + 86)
            out.append({"x": x + 4 * ox, "y": y + 4 * oy, "r": rng.choice([0, 1, 3, 5, 9, 14, 22, 37, 45])})
        if not boundary(out, ox, oy, nr, nc):
            return out


def gen(rng, sk=None):
    if sk:
        nr, nc = rng.randint(4, 22), rng.randint(4, 22)
        ox, oy = sk["o"]
        has = [sk["noise"], sk["mfrac"], sk["ormasks"]]
        ops = []
        for o in sk["ops"]:
            stars = o["stars"]
            if stars and boundary(stars, ox, oy, nr, nc):
                stars = [dict(s, x=s["x"] + 1, y=s["y"] + 2) for s in stars]
                if boundary(stars, ox, oy, nr, nc):
                    return None
            ops.append({"what": o["what"], "stars": stars})
    else:
        nr, nc = rng.randint(2, 34), rng.randint(2, 34)
        ox, oy = rng.choice([(0, 0), (rng.randint(-40, 300), rng.randint(-40, 300))])
        has = [rng.randint(0, 1) for _ in range(3)]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            w = rng.choice(["edge", "bright", "bright"])
            ops.append({"what": w, "stars": gen_stars(rng, ox, oy, nr, nc) if w == "bright" else []})
    nb = rng.choice([1, 2, 2, 3])
    m = rng.choice([[0, 4, 4, 0], [4, 0, 0, 4], [0, -4, 4, 0], [3, 1, -1, 2], [-4, 0, 0, 4]])
    wx, wy = rng.choice([(0, 0), (rng.randint(-50, 50), rng.randint(-50, 50))])
    g = lambda f: [[f() for _ in range(nc)] for _ in range(nr)]    # noqa

    def exp(lo, hi, mf=False):
        return {"x": ox, "y": oy, "m": m, "wx": wx, "wy": wy,
                "im": g(lambda: rng.choice([0, 0, 0.25, 1])) if mf else g(lambda: rng.randint(lo, hi)),
                "var": g(lambda: rng.choice([1, 4, 9])), "mask": g(lambda: rng.choice([0, 0, 0, 1, 2, 32]))}
    return {"names": rng.sample("grizy", nb), "exps": [exp(-40, 40) for _ in range(nb)],
            "noise": [exp(-9, 9) for _ in range(nb)] if has[0] else [],
            "mfrac": [exp(0, 0, True) for _ in range(nb)] if has[1] else [],
            "ormasks": [g(lambda: rng.choice([0, 0, 1, 2, 64])) for _ in range(nb)] if has[2] else [],
            "explicit": rng.randint(0, 1), "ops": ops}
