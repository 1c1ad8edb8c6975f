"""Coadds, symmetrised weights and joint measurements (specification: Joint)."""
import numpy as np
from .num import fx, fxs, grid, igrid

EDGE = 2**30
# flags that exclude a band, and those of its mask which may do so
BF = {EDGE | 2: [EDGE, 2], 8 | -2**31: [8, -2**31], -2**31: [-2**31]}


def jac(i, cen):
    import ngmix
    row, col, scale = {0: (cen, cen, 1.0), 1: (cen, cen + 0.25, 1.0), 2: (cen, cen, 0.5)}[i]
    return ngmix.DiagonalJacobian(row=row, col=col, scale=scale)


def asmeta(pairs):
    return {x["k"]: x["v"] for x in pairs}


def metalist(meta, drop=()):
    return [{"k": k, "v": int(v)} for k, v in sorted(meta.items()) if k not in drop]


def obs_of(bd, b=0):
    import ngmix
    w = np.array(bd["w"], dtype="f8")
    psf = None
    if bd["psf"]:
        p = np.array(bd["psf"], dtype="f8")
        psf = ngmix.Observation(p, weight=np.ones(p.shape), jacobian=jac(bd["pjac"], (len(p) - 1) / 2),
                                meta=dict(asmeta(bd.get("pmeta", [])), band=b))
    kw = {}
    for key, name, dt in (("mf", "mfrac", "f8"), ("no", "noise", "f8"), ("bm", "bmask", "i4"),
                          ("om", "ormask", "i4")):
        if bd[key]:
            kw[name] = np.array(bd[key], dtype=dt)
    return ngmix.Observation(np.array(bd["im"], dtype="f8"), weight=w, psf=psf,
                             jacobian=jac(bd["jac"], (len(w) - 1) / 2),
                             ignore_zero_weight=bool(np.any(w > 0)),
                             meta=asmeta(bd["meta"]) if "meta" in bd else {"b": b}, **kw)


def build(bands, wmeta=None):
    import ngmix
    mb = ngmix.MultiBandObsList(meta={"k": 1} if wmeta is None else asmeta(wmeta))
    for b, bd in enumerate(bands):
        ol = ngmix.ObsList(meta=asmeta(bd.get("lmeta", [])))
        for _ in range(bd["n"]):
            ol.append(obs_of(bd, b))
        mb.append(ol)
    return mb


PLANES = ("image", "weight", "bmask", "ormask", "noise", "mfrac")


def freeze(mb):
    out = []
    for ol in mb:
        out.append(metalist(ol.meta) if hasattr(ol, "meta") else 0)
        for o in ol:
            for x in [o] + ([o.psf] if o.has_psf() else []):
                for p in PLANES:
                    if p in ("image", "weight") or getattr(x, "has_" + p)():
                        out.append((p, getattr(x, p).tobytes()))
                    else:
                        out.append((p, None))
                out.append(repr(x.jacobian))
                out.append(metalist(x.meta, ("result",)))
    return out


def jac_id(j, shape):
    cen = (shape[0] - 1) / 2
    for i in (0, 1, 2):
        if repr(jac(i, cen)) == repr(j):
            return i
    return -1


def run_coadd(scn):
    from ngmix import env
    from metadetect import fitting
    env.reset()
    mb = build(scn["bands"], scn["wmeta"])
    before = freeze(mb)
    rec = {"op": "coadd", "bands": scn["bands"], "shear": scn["shear"], "flags": -1,
           "wmeta": scn["wmeta"],
           "out": {"given": 0}}
    kw = {} if scn["default"] else {"shear_bands": list(scn["shear"])}
    try:
        out, flags = fitting.make_coadd_obs(mb, **kw)
        rec["outcome"] = "ok"
        rec["flags"] = int(flags)
        if out is not None:
            o = {"given": 1, "im": grid(out.image, 1000), "w": grid(out.weight, 1000),
                 "mf": grid(out.mfrac, 1000) if out.has_mfrac() else [],
                 "no": grid(out.noise, 1000) if out.has_noise() else [],
                 "bm": igrid(out.bmask) if out.has_bmask() else [],
                 "om": igrid(out.ormask) if out.has_ormask() else [],
                 "psf": grid(out.psf.image, 1000) if out.has_psf() else [],
                 "meta": metalist(out.meta),
                 "pmeta": metalist(out.psf.meta, ("band",)) if out.has_psf() else [],
                 "pw": int(not out.has_psf() or bool(
                     np.all(out.psf.weight > 0) and np.all(np.isfinite(out.psf.weight)))),
                 "jac": jac_id(out.jacobian, out.image.shape),
                 "pjac": jac_id(out.psf.jacobian, out.psf.image.shape) if out.has_psf() else 0}
            rec["out"] = o
    except Exception as x:
        rec["outcome"] = "raise:%s:%s" % (type(x).__name__, str(x)[:60])
    rec["inputs_same"] = int(freeze(mb) == before)
    return [rec]


def run_sym(scn):
    from metadetect import fitting
    o = obs_of(scn["band"])
    w0 = o.weight.copy()
    before = freeze([[o]])
    rec = {"op": "sym", "w": scn["band"]["w"], "out": [], "again": [], "planes_same": 1,
           "copied": 1}
    try:
        s = fitting.symmetrize_obs_weights(o)
        a = fitting.symmetrize_obs_weights(s)
        rec["outcome"] = "ok"
        rec["out"], rec["again"] = grid(s.weight), grid(a.weight)
        drop = lambda f: [x for x in f if not (isinstance(x, tuple) and x[0] == "weight")]  # noqa
        rec["planes_same"] = int(drop(freeze([[s]])) == drop(before) and s.meta == o.meta)
        rec["copied"] = int(s is not o and not np.shares_memory(s._weight, o._weight)
                            and not np.shares_memory(s._image, o._image))
    except Exception as x:
        rec["outcome"] = "raise:%s:%s" % (type(x).__name__, str(x)[:60])
    rec["inputs_same"] = int(freeze([[o]]) == before and np.array_equal(o.weight, w0))
    return [rec]


class Answers:
    def __init__(self, scn):
        self.scn, self.calls = scn, []
        self.coadds = scn["kind"] == "am" or scn["coadd"]

    def _raise(self, exc):
        import ngmix.gexceptions as g
        if exc == 2:
            raise (g.BootPSFFailure if len(self.scn["shear"]) % 2 else g.PSFFluxFailure)("scripted")
        raise (g.GMixRangeError if self.scn["symm"] else ValueError)("scripted")

    def psf(self, obs):
        b = 0 if self.coadds else obs.meta["band"]
        a = self.scn["psf"][b]
        if a["exc"]:
            self._raise(a["exc"])
        g = np.array([a["g1"], a["g2"]]) / 6.0
        r = {"flags": a["flags"], "T": float(a["T"]), "T_flags": 0, "flux_flags": 0, "s2n": 5.0}
        if self.scn["kind"] == "am":
            r["e"] = g
        elif self.scn["psf_e"]:
            r["e"] = 2 * g / (1 + (g**2).sum())
        else:
            r["g"] = g
        if a["flags"]:
            for k in ("T", "e", "g"):
                r.pop(k, None)
        return r

    def call(self, obss):
        c = {"im": [grid(o.image, 1000) for o in obss], "w": [grid(o.weight, 1000) for o in obss]}
        if not self.calls or self.calls[-1] != c:
            self.calls.append(c)

    def obj(self, obss):
        self.call(obss)
        a = self.scn["obj"]
        if a["exc"]:
            self._raise(a["exc"])
        g = np.array([a["g1"], a["g2"]]) / 100.0
        r = {"flags": a["flags"], "T_flags": a["Tflags"], "flux_flags": 0}
        if not a["flags"]:
            r.update(s2n=float(a["s2n"]), g=g, e=g, g_cov=10.0 * np.eye(2), e_cov=10.0 * np.eye(2))
        if (self.scn["kind"] == "am" and not a["Tflags"]) or (
                self.scn["kind"] == "gauss" and not a["flags"]):
            r.update(T=float(a["T"]), T_err=float(a["Terr"]))
        if not a["flags"]:
            m = (len(obss[0].image) - 1) // 2
            f = np.array([o.image[m, m] for o in obss])
            r["flux"], r["flux_err"] = (f, f / 10) if len(f) > 1 else (f[0], f[0] / 10)
        return r

    def admom(self, obs):
        return self.obj([obs]) if obs.has_psf() else self.psf(obs)

    def gauss(self, fitter, obs):
        import ngmix
        if isinstance(obs, ngmix.Observation):
            return self.psf(obs)
        return self.obj([o for ol in obs for o in ol])


def run_joint(scn):
    from ngmix import env
    from metadetect import fitting
    env.reset()
    a = Answers(scn)
    env.HOOKS.update(admom=a.admom, gauss=a.gauss)
    mb = build(scn["bands"])
    before = freeze(mb)
    k = scn["kind"]
    rec = {"op": "joint", "res": {},
           "label": "".join(str(s) for s in sorted(scn["shear"]))}
    for key in ("bands", "shear", "kind", "coadd", "symm", "psf", "obj"):
        rec[key] = scn[key]
    kw = {} if scn["default"] else {"shear_bands": list(scn["shear"])}
    rng = np.random.RandomState(4)
    try:
        if scn["via_list"]:
            res = fitting.fit_mbobs_list_joint(
                mbobs_list=[mb], fitter_name=k if not scn["alias"] else "admom",
                bmask_flags=scn.get("bf", EDGE | 2), rng=rng, symmetrize=bool(scn["symm"]),
                coadd=bool(scn["coadd"]), **kw)
        elif k == "am":
            res = fitting.fit_mbobs_admom(mbobs=mb, bmask_flags=scn.get("bf", EDGE | 2), rng=rng,
                                          symmetrize=bool(scn["symm"]), **kw)
        else:
            res = fitting.fit_mbobs_gauss(mbobs=mb, bmask_flags=scn.get("bf", EDGE | 2), rng=rng,
                                          coadd=bool(scn["coadd"]), **kw)
        rec["outcome"] = "ok"
        r = res[0]
        g = lambda n: r[k + "_" + n]     # noqa
        rec["res"] = {
            "flags": int(g("flags")), "pf": int(g("psf_flags")), "of": int(g("obj_flags")),
            "Tf": int(g("T_flags")), "ff": [int(x) for x in np.atleast_1d(g("band_flux_flags"))],
            "flux": fxs(np.atleast_1d(g("band_flux")), 1000),
            "ferr": fxs(np.atleast_1d(g("band_flux_err")), 1000),
            "T": fx(g("T"), 1000), "Te": fx(g("T_err"), 1000), "Tr": fx(g("T_ratio"), 1000),
            "g1": fx(g("g")[0], 1000), "g2": fx(g("g")[1], 1000), "gc": fx(g("g_cov")[1][1], 1000),
            "s2n": fx(g("s2n"), 1000), "pT": fx(g("psf_T"), 1000),
            "pg1": fx(g("psf_g")[0], 1000), "pg2": fx(g("psf_g")[1], 1000),
            "sb": str(r["shear_bands"])}
    except Exception as x:
        rec["outcome"] = "raise:%s:%s" % (type(x).__name__, str(x)[:60])
    rec["calls"] = a.calls
    rec["inputs_same"] = int(freeze(mb) == before)
    env.reset()
    return [rec]


def execute(scn):
    return {"coadd": run_coadd, "sym": run_sym, "joint": run_joint}[scn["op"]](scn)


# ------------------------------------------------------------------ scenarios
def wgrid(rng, n, kind):
    w0 = rng.randint(1, 6)
    if kind == "zero":
        return [[0] * n for _ in range(n)]
    p = {"full": 0, "holes": 0.2, "var": 0.1, "many": 0.6}[kind]
    w = [[0 if rng.random() < p else (w0 if kind not in ("var", "many") else rng.choice([1, 2, 3, 4, 6]))
          for _ in range(n)] for _ in range(n)]
    if not any(map(any, w)):
        w[rng.randrange(n)][rng.randrange(n)] = w0
    return w


def ints(rng, n, lo, hi):
    return [[rng.randint(lo, hi) for _ in range(n)] for _ in range(n)]


def band(rng, n, kind=None, planes=("mf", "no", "bm", "om", "psf")):
    kind = kind or rng.choice(["full", "holes", "var", "holes"])
    bd = {"n": 1, "w": wgrid(rng, n, kind), "edge": 0, "im": ints(rng, n, -60, 90), "jac": 0,
          "pjac": 0, "mf": [], "no": [], "bm": [], "om": [], "psf": []}
    if "mf" in planes:
        bd["mf"] = ints(rng, n, 0, 1)
    if "no" in planes:
        bd["no"] = ints(rng, n, -30, 30)
    for k in ("bm", "om"):
        if k in planes:
            bd[k] = [[rng.choice([0, 0, 0, 1, 4, 64, 68, 1 << 20]) for _ in range(n)] for _ in range(n)]
    if "psf" in planes:
        bd["psf"] = ints(rng, 3, 1, 9)
    return bd


def metas(rng, kind):
    return [{"k": k, "v": rng.randint(1, 99)} for k in ("p", "q", "r", kind) if rng.random() < 0.45]


def gen_coadd(rng, sk=None):
    scn = gen_coadd0(rng, sk)
    for bd in scn["bands"]:
        bd.update(meta=metas(rng, "o"), lmeta=metas(rng, "l"), pmeta=metas(rng, "o"))
    scn["wmeta"] = metas(rng, "m")
    return scn


def gen_coadd0(rng, sk=None):
    if sk:
        bands = []
        for w, im in zip(sk["w"], sk["im"]):
            bd = band(rng, 1, "full", ["psf"])
            bd["w"], bd["im"], bd["bm"] = w, im, im
            bands.append(bd)
        shear = rng.sample(range(len(bands)), len(bands))
        return {"op": "coadd", "bands": bands, "shear": shear, "default": 0}
    nb, n = rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([3, 4, 5])
    planes = ["psf"] + [p for p in ("mf", "no", "bm", "om") if rng.random() < 0.6]
    bands = [band(rng, n, planes=planes) for _ in range(nb)]
    shear = rng.sample(range(nb), rng.randint(1, nb))
    if rng.random() < 0.5:
        shear = rng.sample(range(nb), nb)
    t = rng.random()
    i = rng.randrange(nb)
    if t < 0.45:
        k = rng.choice(["jac", "pjac", "shape", "pshape", "nopsf", "zero", "many", "plane", "range",
                        "plane", "range", "disjoint"])
        if k in ("jac", "pjac"):
            bands[i][k] = rng.choice([1, 2])
        elif k == "shape":
            bands[i] = band(rng, n + 1, planes=planes)
        elif k == "pshape":
            bands[i]["psf"] = ints(rng, 5, 1, 9)
        elif k == "nopsf":
            bands[i]["psf"] = []
        elif k == "zero":
            bands[i]["w"] = wgrid(rng, n, "zero")
        elif k == "many":
            for b in bands:
                b["w"] = wgrid(rng, n, "many")
        elif k == "disjoint":
            for j, b in enumerate(bands):
                b["w"] = [[2 if (r + c) % 2 == j % 2 else 0 for c in range(n)] for r in range(n)]
        elif k == "plane":
            p = rng.choice(["mf", "no", "bm", "om"])
            if bands[i][p]:
                bands[i][p] = []
            else:
                bands[i][p] = ints(rng, n, 0, 1)
        else:
            j = rng.randrange(len(shear) + 1)
            shear = shear[:j] + [nb + rng.randint(0, 1)] + shear[j:]
    return {"op": "coadd", "bands": bands, "shear": shear,
            "default": int(shear == list(range(nb)) and rng.random() < 0.5)}


def gen_sym(rng, w=None):
    n = len(w) if w else rng.choice([1, 2, 3, 4, 5, 6])
    bd = band(rng, n, rng.choice(["full", "holes", "var", "many", "holes", "zero"]),
              [p for p in ("mf", "no", "bm", "om", "psf") if rng.random() < 0.6])
    if w:
        bd["w"] = w
    return {"op": "sym", "band": bd}


def psf_answer(rng, kind="ok"):
    return {"exc": {"exc": 1, "psfexc": 2}.get(kind, 0),
            "flags": rng.choice([4, 8, 12]) if kind == "flag" else 0,
            "T": rng.randint(1, 4), "g1": rng.randint(-3, 3), "g2": rng.randint(-3, 3)}


def obj_answer(rng, kind="ok"):
    return {"exc": {"exc": 1, "psfexc": 2}.get(kind, 0),
            "flags": rng.choice([4, 8]) if kind in ("flag", "both") else 0,
            "Tflags": rng.choice([8, 64]) if kind in ("T", "both") else 0,
            "T": rng.randint(1, 9), "Terr": rng.randint(1, 4), "g1": rng.randint(-90, 90),
            "g2": rng.randint(-90, 90), "s2n": rng.randint(1, 50)}


def gen_joint(rng, sk=None):
    n = rng.choice([3, 4, 5])
    if sk:
        ks, shear, (kind, coadd) = sk["skel"]["ks"], sk["shear"], sk["fit"]
        pk, okind, odd = sk["skel"]["p"], sk["skel"]["o"], sk["skel"]["odd"]
    else:
        nb = rng.choice([1, 2, 2, 3, 3, 4])
        bad = rng.random() < 0.2
        ks = [rng.choice(["none", "two", "zero", "edge"]) if bad and rng.random() < 0.4 else "ok"
              for _ in range(nb)]
        shear = rng.sample(range(nb), rng.randint(1, nb))
        if rng.random() < 0.06:
            shear.insert(rng.randint(0, len(shear)), nb + rng.randint(0, 1))
        kind, coadd = rng.choice([("am", 0), ("am", 1), ("gauss", 0), ("gauss", 0), ("gauss", 1)])
        pk = rng.choice(["ok"] * 6 + ["flag", "exc", "psfexc"])
        okind = rng.choice(["ok"] * 6 + ["flag", "T", "both", "exc", "psfexc"])
        odd = int(rng.random() < 0.08)
    nb = len(ks)
    bf = rng.choice(sorted(BF))
    planes = ["psf", "bm"] + [p for p in ("mf", "no", "om") if rng.random() < 0.4]
    bands = []
    for k in ks:
        bd = band(rng, n, "zero" if k == "zero" else None, planes)
        bd["n"] = {"none": 0, "two": 2}.get(k, 1)
        if k == "edge":
            bd["edge"] = 1
            bd["bm"][rng.randrange(n)][rng.randrange(n)] |= rng.choice(BF[bf])
        bands.append(bd)
    if odd and nb > 1:
        bands[-1]["pjac"] = 1
    if kind == "gauss" and not coadd and pk == "flag":
        psf = [psf_answer(rng, pk) for _ in range(nb)]
    else:
        psf = [psf_answer(rng, pk)] * nb if pk != "ok" else [psf_answer(rng) for _ in range(nb)]
    return {"op": "joint", "bf": bf, "bands": bands, "shear": list(shear), "kind": kind, "coadd": coadd,
            "symm": rng.randint(0, 1), "psf": psf, "obj": obj_answer(rng, okind),
            "psf_e": rng.randint(0, 1), "via_list": rng.randint(0, 1), "alias":
            int(kind == "am" and rng.random() < 0.5),
            "default": int(list(shear) == list(range(nb)) and rng.random() < 0.5)}
