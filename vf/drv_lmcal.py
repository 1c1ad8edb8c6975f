"""Metacal on exposures (specification: McalExp)."""
import numpy as np
from .num import fx, grid
from .drv_lexp import exposure, freeze, raised, PosPsf, MS, VS

S = 1000        # pixels
GTRUE = {"noshear": (0, 0), "1p": (0.01, 0), "1m": (-0.01, 0), "2p": (0, 0.01), "2m": (0, -0.01)}
APIS = ["mb_fix", "mb", "exp_fix", "exp"]


def uv_of(e):
    """du/dx, du/dy, dv/dx, dv/dy in the convention of the package's Jacobians"""
    a, b, c, d = np.array(e["m"]) / MS
    return d, -c, b, -a


def gwcs_of(e):
    import galsim
    a, b, c, d = uv_of(e)
    return galsim.JacobianWCS(a, b, c, d)


def term(im, psf, wcs, t, sigma, flux):
    """the image deconvolved from the psf, sheared, seen through a round Gaussian"""
    import galsim
    g1, g2 = GTRUE[t]
    obj = galsim.InterpolatedImage(galsim.Image(np.array(im, dtype="f8"), wcs=wcs), x_interpolant="lanczos15")
    dec = galsim.Deconvolve(galsim.InterpolatedImage(galsim.Image(np.array(psf, dtype="f8"), wcs=wcs),
                                                     x_interpolant="lanczos15"))
    full = galsim.Convolve(galsim.Convolve(obj, dec).shear(g1=g1, g2=g2), galsim.Gaussian(sigma=sigma, flux=flux))
    h, w = np.shape(im)
    out = galsim.ImageD(w, h, wcs=wcs)
    full.drawImage(image=out, method="no_pixel")
    return out.array


def kernel(n, e, sigma):
    """a normalised round Gaussian (round on the sky) on an n by n grid"""
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2
    a, b, c, d = uv_of(e)
    k = np.exp(-((a * x + b * y)**2 + (c * x + d * y)**2) / 2 / sigma**2)
    return k / k.sum()


def target_sigma(scn, b):
    """width of the target PSF of band b, and of the dilated one"""
    if scn["stats"]:
        from ngmix.metacal.metacal import _get_ellip_dilation
        s = scn["stats"][b]
        T = s["T"] / 1000
        return float(np.sqrt(T * _get_ellip_dilation(s["e1"] / 1000, s["e2"] / 1000, T) / 2))
    return 0.9 + 0.05 * (round(float(np.sum(scn["psfs"][b]))) % 7)


def install_hook():
    import galsim
    import ngmix

    def target(psf, flux):
        # a round PSF which depends on the psf it stands for
        return galsim.Gaussian(sigma=0.9 + 0.05 * (round(psf.image.array.sum()) % 7), flux=flux)
    ngmix.env.HOOKS["gauss_target_psf"] = target


def call(scn):
    from metadetect.lsst import metacal_exposures as me
    from metadetect.lsst import util
    names = scn["names"]
    xs = [exposure(e, p, b) for e, p, b in zip(scn["exps"], scn["psfs"], names)]
    ns = [exposure(e, p, b) for e, p, b in zip(scn["noise"], scn["psfs"], names)]
    types = None if scn["dflt"] else list(scn["types"])
    kw = {} if scn["dflt"] else {"types": types}
    stats = None
    if scn["stats"]:
        stats = np.zeros(len(scn["stats"]), dtype=[("e1", "f8"), ("e2", "f8"), ("T", "f8")])
        for i, s in enumerate(scn["stats"]):
            stats[i] = (s["e1"] / 1000, s["e2"] / 1000, s["T"] / 1000)
    api = scn["api"]
    if api in ("mb_fix", "mb"):
        mb, nb = util.get_mbexp(xs), util.get_mbexp(ns)
        inputs = list(mb.singles) + list(nb.singles)
        for x, p in zip(inputs, scn["psfs"] + scn["psfs"]):
            x.setPsf(PosPsf(p))
        if stats is not None:
            kw["psf_stats"] = stats
        go = (lambda: me.get_metacal_mbexps_fixnoise(mb, nb, **kw)) if api == "mb_fix" else \
            (lambda: (me.get_metacal_mbexps(mb, **kw), {}))
        of = lambda v: (list(v.bands), list(v.singles))
    else:
        inputs = [xs[0], ns[0]]
        if stats is not None:
            kw["psf_stats"] = stats[0]
        go = (lambda: me.get_metacal_exps_fixnoise(xs[0], ns[0], **kw)) if api == "exp_fix" else \
            (lambda: (me.get_metacal_exps(xs[0], **kw), {}))
        of = lambda v: ([v.getFilter().bandLabel], [v])
    frz = [freeze(x) for x in inputs]
    types0 = list(types) if types is not None else None
    res, outcome = ({}, {}), "ok"
    try:
        res = go()
    except Exception as e:
        outcome = raised(e)
    same = int(frz == [freeze(x) for x in inputs] and types == types0)
    pos = []
    for x in inputs:
        if x.getPsf() is not None and getattr(x.getPsf(), "log", None):
            pos.append([[fx(p[0], 2), fx(p[1], 2)] for p in x.getPsf().log])
    return res, outcome, same, pos, of, inputs


def run_mcal(scn):
    install_hook()
    (main, noise), outcome, same, pos, of, inputs = call(scn)
    names = scn["names"]
    multi = scn["api"].startswith("mb")
    nb = len(names) if multi else 1
    e0 = scn["exps"][0]
    rec = {"op": "mcal", "api": scn["api"], "names": names[:nb], "dflt": scn["dflt"], "types": scn["types"],
           "nstats": len(scn["stats"]), "outcome": outcome, "same": same, "pos": [p for q in pos for p in q],
           "fr": [e0["x"], e0["y"], len(e0["im"][0]), len(e0["im"])],
           "keys": list(main), "nkeys": list(noise), "out": [], "nout": [], "ref": [], "nref": [], "nref3": [],
           "ker": [], "var": [e["var"] for e in scn["exps"][:nb]], "mask": [e["mask"] for e in scn["exps"][:nb]],
           "nmask": [e["mask"] for e in scn["noise"][:nb]], "nvar": [e["var"] for e in scn["noise"][:nb]]}
    if outcome != "ok":
        return [rec]

    def show(d):
        rows = []
        for t in d:
            bands, xs = of(d[t])
            cols = []
            for x in xs:
                from lsst.geom import Point2D
                k = x.getPsf().computeKernelImage(Point2D(x.getBBox().getCenter())).array
                b = x.getBBox()
                cols.append({"band": x.getFilter().bandLabel, "im": grid(x.image.array, S),
                             "var": grid(x.variance.array, VS), "mask": [[int(v) for v in r] for r in x.mask.array],
                             "fr": [b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight()],
                             "ker": grid(k, 10**6), "wcs": int(any(x.getWcs() == i.getWcs() for i in inputs))})
            rows.append({"bands": bands, "cols": cols})
        return rows
    rec["out"], rec["nout"] = show(main), show(noise)
    use = [t for t in dict.fromkeys(["noshear", "1p", "1m"] if scn["dflt"] else scn["types"]) if t in GTRUE]
    for t in use:
        r, n1, n3 = [], [], []
        for b in range(nb):
            e, psf = scn["exps"][b], np.array(scn["psfs"][b], dtype="f8")
            wcs, flux, sg = gwcs_of(e), psf.sum(), target_sigma(scn, b) * 1.02
            r.append(grid(term(e["im"], psf, wcs, t, sg, flux), S))
            if scn["api"].endswith("fix"):
                im = np.array(scn["noise"][b]["im"], dtype="f8")
                n1.append(grid(np.rot90(term(np.rot90(im), psf, wcs, t, sg, flux), k=3), S))
                n3.append(grid(np.rot90(term(np.rot90(im, k=3), psf, wcs, t, sg, flux)), S))
        rec["ref"].append(r)
        rec["nref"].append(n1)
        rec["nref3"].append(n3)
    rec["ker"] = [grid(kernel(len(scn["psfs"][b]), scn["exps"][b], target_sigma(scn, b) * 1.02), 10**6) for b in range(nb)]
    return [rec]


# ------------------------------------------------------------------ moments
def moments(im, e):
    """second moments on the sky, about the object's own centre, in 1e-4 arcsec^2"""
    im = np.asarray(im, dtype="f8")
    h, w = im.shape
    y, x = np.mgrid[0:h, 0:w] - np.array([(h - 1) / 2, (w - 1) / 2]).reshape(2, 1, 1)
    a, b, c, d = uv_of(e)
    u, v = a * x + b * y, c * x + d * y
    f = im.sum()
    mu, mv = (im * u).sum() / f, (im * v).sum() / f
    m = [((u - mu)**2 * im).sum() / f, ((u - mu) * (v - mv) * im).sum() / f, ((v - mv)**2 * im).sum() / f]
    return {"flux": fx(f, 10), "cen": [fx(mu, 10000), fx(mv, 10000)], "m": [fx(q, 10000) for q in m]}


def blob(n, sx, sy, sxy, x0=0.0, y0=0.0, flux=1.0):
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2
    i = np.linalg.inv([[sx, sxy], [sxy, sy]])
    x, y = x - x0, y - y0
    g = np.exp(-(i[0, 0] * x * x + 2 * i[0, 1] * x * y + i[1, 1] * y * y) / 2)
    return flux * g / g.sum()


def run_moments(scn):
    """compact Gaussian objects: what metacal does to their moments"""
    install_hook()
    n = 61
    full = dict(scn)
    full["exps"], full["noise"], full["psfs"] = [], [], []
    for b in scn["mom"]:
        var, mask = np.full((n, n), 4).tolist(), np.zeros((n, n), dtype="i4").tolist()
        base = {"x": b["x"], "y": b["y"], "m": b["m"], "var": var, "mask": mask}
        full["exps"].append(dict(base, im=blob(n, *[v / 10 for v in b["obj"]], flux=b["flux"]).tolist()))
        full["noise"].append(dict(base, im=blob(n, *[v / 10 for v in b["nobj"]], flux=b["nflux"]).tolist()))
        full["psfs"].append(blob(31, *[v / 10 for v in b["psf"]]).tolist())
    (main, noise), outcome, same, pos, of, inputs = call(full)
    rec = {"op": "mcmom", "outcome": outcome, "types": scn["types"], "keys": list(main), "rows": []}
    for t in main:
        bands, xs = of(main[t])
        nbands, nxs = of(noise[t])
        for b, (x, nx) in enumerate(zip(xs, nxs)):
            e = full["exps"][b]
            from lsst.geom import Point2D
            k = x.getPsf().computeKernelImage(Point2D(0, 0)).array
            rec["rows"].append({"t": t, "psf": moments(full["psfs"][b], e), "ker": moments(k, e),
                                "in": moments(e["im"], e), "nin": moments(full["noise"][b]["im"], e),
                                "out": moments(x.image.array.astype("f8") - nx.image.array, e),
                                "nout": moments(nx.image.array, e), "det": 1})
    return [rec]


def execute(scn):
    return run_mcal(scn) if scn["op"] == "mcal" else run_moments(scn)


# ------------------------------------------------------------------ scenarios
def plane_exp(rng, x, y, m, w, h, amp):
    im = np.zeros((h, w))
    for _ in range(3):      # smooth, as anything seen through a PSF; fades before the edge
        yy, xx = np.mgrid[0:h, 0:w]
        cx, cy = (w - 1) / 2 + rng.uniform(-2, 2), (h - 1) / 2 + rng.uniform(-2, 2)
        im += rng.uniform(-amp, 2 * amp) * np.exp(-((xx - cx)**2 + (yy - cy)**2) / rng.uniform(4, 8))
    return {"x": x, "y": y, "m": m, "im": im.astype("f4").astype("f8").tolist(),
            "var": [[rng.choice([4, 8, 8, 12]) for _ in range(w)] for _ in range(h)],
            "mask": [[rng.choice([0, 0, 0, 1, 32, 512]) for _ in range(w)] for _ in range(h)]}


def gen_stats(rng, n):
    return [{"e1": rng.randint(-120, 120), "e2": rng.randint(-120, 120), "T": rng.randint(4000, 7000)} for _ in range(n)]


def gen_mcal(rng, sk=None):
    api = sk["api"] if sk else rng.choice(APIS)
    nb = sk["nb"] if sk else (rng.randint(1, 3) if api.startswith("mb") else 1)
    types = list(sk["types"]) if sk else [rng.choice(["noshear", "1p", "1m", "2p", "2m"]) for _ in range(rng.randint(1, 3))]
    if not sk and rng.random() < 0.1:
        types[rng.randrange(len(types))] = rng.choice(["1x", "2p_psf", "noShear", ""])
    dflt = int(not sk and rng.random() < 0.3)
    nst = sk["nstats"] if sk else rng.choice([0, nb, nb, rng.randint(0, 3)])
    if not api.startswith("mb"):
        nst = min(nst, 1)
    w, h = rng.randint(19, 24), rng.randint(19, 24)
    x, y = rng.choice([(0, 0), (40, -3), (-7, 1001)])
    m = rng.choice([[4, 0, 0, 4], [4, 0, 0, 4], [0, 4, 4, 0], [-3, 1, 1, 3], [4, 1, 0, 3]])
    exps = [plane_exp(rng, x, y, m, w, h, 90) for _ in range(nb)]
    noise = [plane_exp(rng, x, y, m, w, h, 30) for _ in range(nb)]
    psfs = []
    for b in range(nb):
        n = 13
        s = 10 + rng.randint(0, 5)
        p = blob(n, s / 10, (s + rng.randint(-1, 1)) / 10, rng.randint(-1, 1) / 10)
        psfs.append(np.round(p * rng.choice([1, 2, 3]), 6).tolist())
    return {"op": "mcal", "api": api, "names": rng.sample("grizy", nb), "dflt": dflt, "types": types,
            "stats": gen_stats(rng, nst), "exps": exps, "noise": noise, "psfs": psfs}


def gen_moments(rng):
    api = rng.choice(["mb_fix", "mb_fix", "exp_fix"])
    nb = 1 if api == "exp_fix" else rng.randint(1, 3)
    m = rng.choice([[4, 0, 0, 4], [0, 4, 4, 0], [0, -4, 4, 0], [-4, 0, 0, 4], [3, 1, -1, 3]])
    mom = []
    for _ in range(nb):
        def obj():
            return [rng.randint(40, 60), rng.randint(40, 60), rng.randint(-8, 8), rng.randint(-9, 9), rng.randint(-9, 9)]
        psf = rng.choice([22, 26, 30])
        mom.append({"x": rng.choice([0, 12, -30]), "y": rng.choice([0, 900]), "m": m, "obj": obj(), "flux": rng.randint(500, 3000),
                    "nobj": obj(), "nflux": rng.randint(100, 3000), "psf": [psf + rng.randint(-2, 2), psf, rng.randint(-2, 2)]})
    types = rng.sample(["noshear", "1p", "1m", "2p", "2m"], rng.randint(1, 3))
    return {"op": "mom", "api": api, "names": rng.sample("grizy", nb), "dflt": 0, "types": types,
            "stats": gen_stats(rng, nb), "mom": mom}
