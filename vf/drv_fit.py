"""Runs with configured fitters (specification: Fitters)."""
import re
import numpy as np
from . import drv_mdet
from .num import fx

MODELS = ["wmom", "ksigma", "pgauss", "am", "admom", "gauss"]


class Env(drv_mdet.Env):
    def __init__(self, c):
        super().__init__(c)
        self.calls, self.mcal_done = [], False

    def metacal(self, mb, **kw):
        self.mcal_done = True
        return super().metacal(mb, **kw)

    def _codes(self, o):
        r, q = (int(np.rint(x)) for x in o.jacobian.get_cen())
        return fx(o.image[r, q])

    def admom(self, obs):
        if obs.image.shape == (3, 3) and not self.mcal_done:
            return super().admom(obs)
        from ngmix import admom
        if obs.image.shape != (3, 3):
            v = self._codes(obs)
            exact = self.seen == 1
            self.calls.append({"m": "am", "fwhm": 0, "smooth": 0, "codes": [v if exact else -1],
                               "w": (obs.weight > 0).astype(int).tolist()})
        res = admom.default_result(obs.copy() if False else obs)
        res.update({"flags": 0, "T_flags": 0, "T": 2.0, "T_err": 1.0, "e": np.zeros(2),
                    "e_cov": np.eye(2), "s2n": 5.0})
        return res

    def gauss(self, fitter, obs):
        import ngmix
        if isinstance(obs, ngmix.Observation):
            return {"flags": 0, "T": 1.0, "g": np.zeros(2), "s2n": 1.0}
        n = len(obs)
        if n == 1 and self.coadd:
            w = (obs[0][0].weight > 0).astype(int).tolist()
        else:
            w = []
        codes = [self._codes(ol[0]) for ol in obs]
        if self.coadd and self.seen > 1:
            codes = [-1] * n
        self.calls.append({"m": "gauss", "fwhm": 0, "smooth": 0, "codes": codes, "w": w})
        return {"flags": 0, "s2n": 10.0, "T": 1.0, "T_err": 0.5, "g": np.zeros(2),
                "g_cov": np.eye(2), "flux": np.ones(n) if n > 1 else 1.0,
                "flux_err": np.ones(n) if n > 1 else 1.0}

    def mom(self, fitter, obs, kw):
        if obs.image.shape != (3, 3):
            self.calls.append({
                "m": fitter.kind, "fwhm": fx(fitter.fwhm, 100),
                "smooth": fx(getattr(fitter, "fwhm_smooth", 0), 100),
                "codes": [self._codes(obs)],
                "w": np.rint(obs.weight).astype(int).tolist()})
            cls = type(fitter).__name__
            want = {"wmom": "GaussMom", "ksigma": "KSigmaMom", "pgauss": "PGaussMom"}
            if want.get(fitter.kind.split("_")[0]) != cls:
                self.calls[-1]["m"] = "class " + cls
        return super().mom(fitter, obs, kw)


def entry(f):
    d = {"model": f["model"]}
    w = {}
    if f["fwhm"] >= 0:
        w["fwhm"] = f["fwhm"] / 100
    if f["smooth"] >= 0:
        w["fwhm_smooth"] = f["smooth"] / 100
    if f["reg"] >= 0:
        w["fwhm_reg"] = f["reg"] / 100
    if w:
        d["weight"] = w
    if f["symm"] >= 0:
        d["symmetrize"] = bool(f["symm"])
    if f["coadd"] >= 0:
        d["coadd"] = bool(f["coadd"])
    return d


def run(scn):
    from ngmix import env
    from metadetect import metadetect as md
    c, fs = scn["cfg"], scn["fitters"]
    env.reset()
    e = Env(c)
    # a run has one band combination, so that the calls are unambiguous
    e.seen = len(c["combs"][0]) if c["combs_given"] else c["nband"]
    e.coadd = any(f["model"] == "gauss" and f["coadd"] == 1 for f in fs)
    env.HOOKS.update(metacal=e.metacal, admom=e.admom, mom=e.mom, gauss=e.gauss)
    cfg = drv_mdet.config_of(c)
    for k in ("model", "weight", "symmetrize"):
        cfg.pop(k, None)
    cfg["mfrac_fwhm"] = 2.0
    if scn["single"]:
        cfg.update(entry(fs[0]))
    else:
        cfg["fitters"] = [entry(f) for f in fs]
    if scn["both"]:
        cfg.update({"model": {"model": "wmom"}, "weight": {"weight": {"fwhm": 1.2}},
                    "symmetrize": {"symmetrize": True},
                    "coadd": {"coadd": False}}[scn["both"]])
    kw = {"shear_band_combs": [list(x) for x in c["combs"]]} if c["combs_given"] else {}
    if c["det_mode"] == "shear_bands":
        kw["det_band_combs"] = "shear_bands"
    elif c["det_mode"] == "list":
        kw["det_band_combs"] = [list(x) for x in c["dets"]]
    rec = {"op": "fitrun", "cfg": c, "fitters": fs, "both": int(bool(scn["both"])),
           "kinds": [], "rows": {"_": []}}
    try:
        res = md.do_metadetect(cfg, drv_mdet.build_set(c, 0), np.random.RandomState(3), **kw)
        rec["outcome"] = "ok"
    except Exception as x:
        rec["outcome"] = "raise:" + type(x).__name__
        res = None
    rec["calls"] = e.calls
    env.reset()
    if res is None:
        if rec["outcome"] == "ok":
            rec["outcome"] = "none"
        return [rec]
    for t, v in res.items():
        rec["rows"][t] = []
        if v is None:
            continue
        kinds = [re.sub("_band_flux$", "", n) for n in v.dtype.names if n.endswith("_band_flux")]
        rec["kinds"] = kinds
        for i in range(v.size):
            rec["rows"][t].append({"fits": [
                {"kind": k, "T": fx(v[k + "_T"][i], 1000), "g1": fx(v[k + "_g"][i][0], 10000)}
                for k in kinds]})
    return [rec]


def fitter(rng, model):
    wavg = model in ("wmom", "ksigma", "pgauss")
    return {"model": model, "fwhm": rng.choice([90, 120, 200]) if wavg or rng.random() < .3 else -1,
            "smooth": rng.choice([-1, 80, 150]) if wavg else -1,
            "reg": rng.choice([-1, 80, 105, 200]) if wavg else -1,
            "symm": rng.choice([-1, -1, 0, 1]), "coadd": rng.choice([-1, 0, 1])}


def gen(rng, i, given=None):
    nb = rng.randint(1, 3)
    comb = [rng.sample(range(nb), rng.randint(1, nb))] if rng.random() < .7 else None
    c = drv_mdet.gen(rng, nband=nb, combs=comb, types=rng.sample(drv_mdet.TYPES9, 2),
                     nobj=rng.randint(1, 2), style="plain", box=rng.choice([4, 6]),
                     bmask_flags=0)
    c["second"] = ""            # the scenario's own fitters
    single = i % 3 == 0
    both = ""
    if given is not None:
        fs = given
        single = len(fs) == 1 and single
    elif single:
        fs = [fitter(rng, MODELS[(i // 3) % 6])]
    else:
        fs, seen = [], set()
        for m in rng.sample(MODELS, rng.randint(1, 4)):
            m = "am" if m == "admom" and rng.random() < .5 else m
            f = fitter(rng, m)
            if f["reg"] < 0:
                key = m
            else:
                key = (m, f["reg"])
            key = "am" if m == "admom" else key
            if key not in seen:
                seen.add(key)
                fs.append(f)
                if f["reg"] >= 0 and rng.random() < .4:
                    g = dict(f, reg=-1, symm=rng.choice([0, 1]))
                    if m not in seen:
                        seen.add(m)
                        fs.append(g)
        if i % 8 == 1:
            both = ["model", "weight", "symmetrize", "coadd"][(i // 8) % 4]
    if i % 9 == 5 and given is None:
        fs[-1] = dict(fs[-1], model=rng.choice(["moments", "WMOM", "", "exp"]), fwhm=120)
    return {"cfg": c, "fitters": fs, "single": single, "both": both}
