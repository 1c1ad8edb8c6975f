"""Band-averaged measurements of one object (specification: Wavg)."""
import copy
import numpy as np
from .num import fx, fxs

NAN = 2000000001
REGS = {0: 0.0, 80: 0.8, 200: 2.0}


def _answer(a):
    d = {"flags": 0, "flagstr": ""}
    if a["mom"]:
        d["sums"] = np.array([np.nan if x == NAN else x for x in a["s"]], dtype="f8")
        d["sums_cov"] = np.diag(np.array(a["cov"], dtype="f8"))
    if a["norm"] >= 0:
        d["sums_norm"] = float(a["norm"])
    elif a["norm"] == -2:
        d["sums_norm"] = np.nan
    if a["hasflux"]:
        d["flux"], d["flux_err"], d["flux_flags"] = float(a["flux"]), float(a["ferr"]), a["fflags"]
    return d


# flags that exclude a band, and the one of them which its mask carries
BF = [(2**30 | 2, 2**30), (2**30 | 2, 2), (-2**31 | 4, -2**31), (-2**31, -2**31), (2**30 | 2, 2**30)]


def flags_of(scn):
    return BF[(sum(scn["shear"]) + len(scn["bands"]) + int(sum(bd["w"][0][0] for bd in scn["bands"]))) % len(BF)]


def build(bands, edge_bit=2**30):
    import ngmix
    mb = ngmix.MultiBandObsList()
    for b, bd in enumerate(bands):
        ol = ngmix.ObsList()
        for _ in range(bd["n"]):
            w = np.array(bd["w"], dtype="f8")
            psf = ngmix.Observation(np.full((3, 3), 1000.0 + b), weight=np.ones((3, 3)),
                                    jacobian=ngmix.DiagonalJacobian(row=1, col=1, scale=1.0))
            bm = np.zeros(w.shape, dtype="i4")
            bm[0, 0] = 8
            if bd["edge"]:
                bm[-1, 0] |= edge_bit
            ol.append(ngmix.Observation(
                np.full(w.shape, 2000.0 + b), weight=w, bmask=bm, psf=psf,
                ignore_zero_weight=False,
                jacobian=ngmix.DiagonalJacobian(row=1, col=1, scale=1.0)))
        mb.append(ol)
    return mb


class Mom:
    """scripted moments"""

    def __init__(self, bands):
        self.bands = bands

    def __call__(self, fitter, obs, kw):
        v = int(round(obs.image[0, 0]))
        if v >= 2000:
            return _answer(self.bands[v - 2000]["obj"])
        return _answer(self.bands[v - 1000]["psf"])


def label(shear):
    return "".join(str(s) for s in sorted(shear))


def result(r, kind, nband):
    g = lambda n: r[kind + "_" + n]          # noqa
    s2n, te = float(g("s2n")), float(g("T_err"))
    return {
        "flags": int(g("flags")), "pf": int(g("psf_flags")), "of": int(g("obj_flags")),
        "Tf": int(g("T_flags")), "ff": [int(x) for x in np.atleast_1d(g("band_flux_flags"))],
        "flux": fxs(np.atleast_1d(g("band_flux")), 1000),
        "ferr": fxs(np.atleast_1d(g("band_flux_err")), 1000),
        "T": fx(g("T"), 1000), "g1": fx(g("g")[0], 1000), "g2": fx(g("g")[1], 1000),
        "s2n2": fx(s2n * s2n, 100), "s2npos": int(s2n >= 0), "Tr": fx(g("T_ratio"), 1000),
        "Te2": fx(te * te, 10000), "gc": fx(g("g_cov")[0][0], 1000000),
        "pT": fx(g("psf_T"), 1000), "pg1": fx(g("psf_g")[0], 1000),
        "pg2": fx(g("psf_g")[1], 1000), "sb": str(r["shear_bands"])}


def fitter_of(kind):
    import ngmix
    return {"wmom": ngmix.gaussmom.GaussMom, "ksigma": ngmix.prepsfmom.KSigmaMom,
            "pgauss": ngmix.prepsfmom.PGaussMom}[kind](fwhm=1.2)


def run(scn):
    from ngmix import env
    from metadetect import fitting
    env.reset()
    mb = build(scn["bands"], flags_of(scn)[1])
    before = [[(o.image.copy(), o.weight.copy(), o.bmask.copy()) for o in ol] for ol in mb]
    env.HOOKS["mom"] = Mom(scn["bands"])
    rec = {"op": "wavg", "bands": scn["bands"], "shear": scn["shear"], "symm": scn["symm"],
           "treg": int(round(REGS[scn["reg"]]**2 * 0.36067376 * 1000)),
           "label": label(scn["shear"])}
    kw = {}
    if scn["reg"]:
        kw["fwhm_reg"] = REGS[scn["reg"]]
    if not scn["symm"]:
        kw["symmetrize"] = False
    if scn["shear"] != list(range(len(scn["bands"]))) or scn["explicit"]:
        kw["shear_bands"] = list(scn["shear"])
    fitter = fitter_of(scn["kind"])
    try:
        if scn["via_list"]:
            res = fitting.fit_mbobs_list_wavg(mbobs_list=[mb, mb], fitter=fitter,
                                              bmask_flags=flags_of(scn)[0], **kw)[1:]
        else:
            res = fitting.fit_mbobs_wavg(mbobs=mb, fitter=fitter, bmask_flags=flags_of(scn)[0], **kw)
        rec["outcome"] = "ok"
        rec["res"] = result(res[0], scn["kind"], len(scn["bands"]))
    except Exception as e:
        rec["outcome"] = "raise:%s:%s" % (type(e).__name__, str(e)[:80])
        rec["res"] = {}
    rec["inputs_same"] = int(all(
        np.array_equal(o.image, b[0]) and np.array_equal(o.weight, b[1])
        and np.array_equal(o.bmask, b[2])
        for ol, bl in zip(mb, before) for o, b in zip(ol, bl)))
    env.reset()
    return [rec]


def answer(rng, trouble, psf=False):
    cen = rng.choice([(0, 0), (0, 0), (3, -2), (NAN, NAN), (NAN, 0), (0, NAN)])
    s = [cen[0], cen[1], rng.randint(-20, 20), rng.randint(-20, 20), rng.choice([20, 40, 60, 80]),
         rng.choice([1, 2, 4, 5] if psf else [10, 20, 40])]
    cov = [rng.choice([1, 4, 9]) for _ in range(6)]
    a = {"mom": 1, "s": s, "cov": cov, "norm": rng.choice([-1, -1, -2, 1, 2, 4, 5]), "hasflux": 1,
         "flux": rng.randint(1, 90), "ferr": rng.randint(1, 9), "fflags": 0}
    if rng.random() < trouble:
        k = rng.choice(["mom", "flux0", "negflux", "negT", "cov", "fflags", "noflux", "cov5", "neg5"])
        if k == "mom":
            a["mom"] = 0
        elif k == "flux0":
            s[5] = 0
        elif k == "negflux":
            s[5] = -s[5]
        elif k == "negT":
            s[4] = -s[4]
        elif k == "cov":
            cov[rng.randrange(6)] = 0
        elif k == "cov5":
            cov[5] = 0
        elif k == "neg5" and not psf:
            cov[5] = -rng.choice([1, 4, 9])
        elif k == "noflux":
            a["hasflux"] = 0
        elif k == "fflags":
            a["fflags"] = rng.choice([4, 64, 68])
    return a


def weights(rng, n, kind=None):
    kind = kind or rng.choice(["full", "full", "holes", "var", "zero", "symzero"])
    w0 = rng.randint(1, 6)
    if kind == "zero":
        return [[0] * n for _ in range(n)]
    if kind == "symzero":      # empty only after symmetrising
        w = [[0 if j < (n + 1) // 2 else w0 for j in range(n)] for _ in range(n)]
        return w
    p = {"full": 0, "holes": 0.15, "var": 0.1}[kind]
    return [[0 if rng.random() < p else (w0 if kind != "var" else rng.randint(1, 6))
             for _ in range(n)] for _ in range(n)]


def gen(rng, trouble=0.2):
    nb = rng.choice([1, 1, 2, 2, 3, 3, 4])
    n = rng.choice([3, 4, 5])
    bands = []
    for _ in range(nb):
        bands.append({
            "n": 0 if rng.random() < trouble * 0.4 else 1,
            "w": weights(rng, n, None if rng.random() < trouble * 2 else
                         rng.choice(["full", "holes", "var"])),
            "edge": int(rng.random() < trouble * 0.5),
            "obj": answer(rng, trouble), "psf": answer(rng, trouble * 0.7, psf=True)})
    if rng.random() < trouble * 0.2:
        bands[-1]["obj"]["norm"] = 0
    shear = rng.sample(range(nb), rng.randint(1, nb))
    if rng.random() < trouble * 0.2:
        shear = []
    return {"bands": bands, "shear": shear, "symm": rng.randint(0, 1),
            "reg": rng.choice([0, 0, 80, 200]), "kind": rng.choice(["wmom", "ksigma", "pgauss"]),
            "explicit": rng.randint(0, 1), "via_list": rng.randint(0, 1)}
