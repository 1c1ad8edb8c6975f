"""Many runs in one process (specification: Session).

A scenario lists what the instances are given and the steps

   [new, i, images, config, generator]   construct instance i
   [go, i], [nested, i]                  run it (nested: from the colour function
                                         of the run before it)
   [read, i]                             read its result

The session runs in a process of its own; every run of it is then repeated alone,
in another fresh process, with pristine copies of what it was given.
"""
import copy
import hashlib
import json
import os
import pickle
import random
import numpy as np

BOOM = "boom"


def _h(*parts):
    m = hashlib.sha1()
    for p in parts:
        m.update(p if isinstance(p, bytes) else repr(p).encode())
    return m.hexdigest()[:14]


def _arr(a):
    a = np.ascontiguousarray(a)
    return _h(str(a.dtype), a.shape, a.tobytes())


def gen_digest(rng):
    s = rng.get_state()
    return _h(s[0], s[1].tobytes(), s[2], s[3], s[4])


def glob_digest():
    return _h(gen_digest(np.random.mtrand._rand), random.getstate())


def obs_digest(mb):
    """everything of the images but the PSF fits"""
    out = []
    for ol in mb:
        out.append(len(ol))
        for o in ol:
            for k in ("image", "weight", "bmask", "ormask", "noise", "mfrac"):
                has = getattr(o, "has_" + k)() if hasattr(o, "has_" + k) else True
                out.append(_arr(getattr(o, k)) if has else "none")
            j = o.jacobian
            out.append((j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol))
            out.append(sorted(o.meta.items()))
            out += [_arr(o.psf.image), _arr(o.psf.weight)]
            out.append(sorted(k for k in o.psf.meta if k != "result"))
    return _h(out)


def cfg_digest(c):
    return _h(json.dumps(c, sort_keys=True, default=repr))


def res_digest(res):
    """one string per shear type"""
    if res is None:
        return []
    out = []
    for t in sorted(res):
        v = res[t]
        out.append("%s:%s" % (t, "none" if v is None else _h(v.dtype.descr, v.shape, v.tobytes())))
    return out


# -------------------------------------------------------------------- inputs
def build_obs(o):
    import ngmix
    rng = np.random.RandomState(o["seed"])
    n, nb = o["n"], o["nband"]
    jac = ngmix.DiagonalJacobian(row=(n - 1) / 2, col=(n - 1) / 2, scale=1.0)
    mb = ngmix.MultiBandObsList()
    pts = [(rng.randint(2, n - 2), rng.randint(2, n - 2)) for _ in range(o["nobj"])]
    for b in range(nb):
        im = rng.normal(scale=0.01, size=(n, n))
        for r, q in pts:
            im[r - 1:r + 2, q - 1:q + 2] += (30 + 20 * rng.uniform()) * np.array(
                [[.2, .5, .2], [.5, 1, .5], [.2, .5, .2]])
        p = np.array([[0, .1, 0], [.1, 1, .12], [0, .1, 0]]) + 0.01 * b
        psf = ngmix.Observation(p, weight=np.ones((3, 3)), jacobian=ngmix.DiagonalJacobian(row=1, col=1, scale=1.0))
        if o["dirty"]:      # fits of an earlier run
            psf.meta["result"] = {"flags": 0, "T": 777.0, "e": np.array([0.5, 0.5])}
            psf.gmix = ngmix.gmix.GMixModel([0, 0, 0, 0, 777.0, 1.0], "gauss")
        w = np.full((n, n), 1.0 + rng.randint(3))
        w[rng.randint(n), rng.randint(n)] = 0
        kw = {}
        if o["mfrac"]:
            kw["mfrac"] = (rng.uniform(size=(n, n)) * (rng.uniform(size=(n, n)) < 0.1))
        obs = ngmix.Observation(
            im, weight=w, bmask=(rng.uniform(size=(n, n)) < 0.05).astype("i4"),
            ormask=(rng.randint(0, 4, size=(n, n))).astype("i4"), noise=rng.normal(size=(n, n)) * 0.01,
            jacobian=jac, psf=psf, ignore_zero_weight=False, meta={"band": b}, **kw)
        ol = ngmix.ObsList()
        ol.append(obs)
        mb.append(ol)
    return mb


def build_cfg(c):
    cfg = {"metacal": {"use_noise_image": True, "psf": c["psf"]},
           "sx": {"detect_thresh": 5.0, "minarea": 1, "filter_kernel": [[1.0]], "filter_type": "conv",
                  "deblend_cont": 1e-5, "deblend_nthresh": 64, "clean": True, "clean_param": 1.0},
           "meds": {"min_box_size": 8, "max_box_size": 8, "box_type": "iso_radius", "rad_min": 2,
                    "rad_fac": 2, "box_padding": 2},
           "mask_region": c["region"]}
    if c["types"]:
        cfg["metacal"]["types"] = list(c["types"])
    if c["step"]:
        cfg["metacal"]["step"] = c["step"]
    if c["nodet"] >= 0:
        cfg["nodet_flags"] = c["nodet"]
    fits = []
    for f in c["fitters"]:
        d = {"model": f}
        if f in ("wmom", "pgauss", "ksigma"):
            d["weight"] = {"fwhm": 1.2 if f == "wmom" else 2.0}
        elif f == "gauss" and c["region"] > 1:
            d["weight"] = {}
        fits.append(d)
    if len(fits) == 1 and c["flat"]:
        cfg.update(fits[0])
    else:
        cfg["fitters"] = fits
    return cfg


class World:
    """what the caller holds"""

    def __init__(self, scn, clean=False):
        d = copy.deepcopy(scn["obs"])
        if clean:
            for o in d:
                o["dirty"] = 0
        self.scn = scn
        self.obs = [build_obs(o) for o in d]
        self.colour = [build_obs(dict(o, seed=o["seed"] + 1000)) for o in d]
        self.cfgs = [build_cfg(c) for c in scn["cfgs"]]
        self.combs = copy.deepcopy(scn["combs"])
        self.gens = {"g%d" % g: np.random.RandomState(77) for g in range(1, 3)}
        self.held = {}          # name of a result -> the result
        self.inst = {}

    def snapshot(self):
        inputs = {}
        for k, o in enumerate(self.obs):
            inputs["images%d" % k] = obs_digest(o)
            inputs["colour%d" % k] = obs_digest(self.colour[k])
        for k, c in enumerate(self.cfgs):
            inputs["config%d" % k] = cfg_digest(c)
        for k, c in enumerate(self.combs):
            inputs["combs%d" % k] = _h(c)
        return {"inputs": inputs, "gens": {k: gen_digest(g) for k, g in self.gens.items()},
                "glob": glob_digest(), "held": {k: res_digest(r) for k, r in self.held.items()}}


class Inst:
    def __init__(self, world, give, rng, colour, oneshot):
        self.w, self.give, self.rng, self.oneshot = world, give, rng, oneshot
        cb = world.combs[give["comb"]]
        self.kw = {"shear_band_combs": cb["shear"], "det_band_combs": cb["det"]}
        self.inner = None
        if colour:
            self.kw["color_key_func"] = self.key
            self.kw["color_dep_mbobs"] = {"blue": world.colour[give["obs"]], "red": world.obs[give["obs"]]}
        self.md, self.n = None, 0

    def args(self):
        return self.w.cfgs[self.give["cfg"]], self.w.obs[self.give["obs"]], self.rng

    def key(self, flux):
        f, self.inner = self.inner, None
        if f is not None:
            f()
        f = float(np.nansum(np.atleast_1d(flux)))
        return [None, "blue", "red"][int(abs(f) * 10) % 3]

    def construct(self):
        from metadetect import metadetect as md
        if not self.oneshot:
            self.md = md.Metadetect(*self.args(), **self.kw)

    def go(self):
        from metadetect import metadetect as md
        self.n += 1
        if self.oneshot:
            self.last = md.do_metadetect(*self.args(), **self.kw)
        else:
            self.md.go()
            self.last = self.md.result
        return self.last


def _setup():
    from ngmix import env
    import ngmix
    env.reset()

    def metacal_boom(mb, rng=None, psf=None, types=None, **kw):
        h = env.HOOKS.pop("metacal")
        try:
            if psf == BOOM:
                raise ValueError("scripted error")
            if psf == "fail":
                raise ngmix.gexceptions.BootPSFFailure("scripted metacal failure")
            return ngmix.metacal.get_all_metacal(mb, rng=rng, psf=psf, types=types, **kw)
        finally:
            env.HOOKS["metacal"] = h
    env.HOOKS["metacal"] = metacal_boom
    env.HOOKS["noise"] = lambda rng: float((np.random if rng is None else rng).normal())


def session(scn):
    """returns (records, [(instance, starts)])"""
    _setup()
    np.random.seed(5)
    random.seed(5)
    w = World(scn)
    recs = [dict(op="begin", prop=scn["prop"], st=w.snapshot())]
    runs = []
    starts = {}
    steps = [list(s) for s in scn["steps"]]
    many = {i for i in range(1, 9) if sum(s[0] in ("go", "nested", "read") and s[1] == i for s in steps) > 1}

    def go(i, inner):
        x = w.inst[i]
        start = x.rng.get_state()
        starts[i].append(start)
        recs.append({"op": "enter", "inst": "i%d" % i, "start": gen_digest(x.rng)})
        x.inner = inner
        try:
            res = x.go()
            out = "none" if res is None else "dict"
        except Exception as e:
            res, out = None, "raise:%s" % type(e).__name__
        x.inner = None
        if out == "dict":
            w.held["i%d_%d" % (i, x.n)] = res
        runs.append((i, list(starts[i])))
        recs.append({"op": "go", "inst": "i%d" % i, "out": out, "dig": res_digest(res),
                     "end": gen_digest(x.rng), "may": [], "raised": int(out.startswith("raise") and scn["cfgs"][x.give["cfg"]]["psf"] != BOOM), "st": w.snapshot()})
        if inner is not None:
            pass
    for k, s in enumerate(steps):
        i = s[1]
        if s[0] == "new":
            give = {"obs": s[2] - 1, "cfg": s[3] - 1, "comb": scn["comb_of"][i - 1]}
            colour = scn["colour"][i - 1]
            gen = "g%d" % s[4]
            w.inst[i] = Inst(w, give, w.gens[gen], colour, scn["oneshot"][i - 1] and i not in many)
            starts[i] = []
            w.inst[i].construct()
            recs.append({"op": "new", "inst": "i%d" % i, "gen": gen,
                         "give": {"kind": "mdet%d" % colour, "cfg": "config%d" % give["cfg"],
                                  "obs": "images%d" % give["obs"], "comb": "combs%d" % give["comb"]},
                         "may": [], "st": w.snapshot()})
        elif s[0] == "go":
            inner = None
            if k + 1 < len(steps) and steps[k + 1][0] == "nested":
                j = steps[k + 1][1]
                inner = (lambda j: lambda: go(j, None))(j)
            go(i, inner)
        elif s[0] == "read" and not w.inst[i].oneshot:
            try:
                r = w.inst[i].md.result
                out, dig = ("none" if r is None else "dict"), res_digest(r)
            except Exception as e:
                out, dig = "raise:%s" % type(e).__name__, []
            recs.append({"op": "read", "inst": "i%d" % i, "out": out, "dig": dig, "may": [], "st": w.snapshot()})
    return recs, [(i, w.inst[i].give, scn["colour"][i - 1], w.inst[i].oneshot, st) for i, st in runs]


def solo(scn, give, colour, oneshot, starts):
    """the run alone; returns (records)"""
    _setup()
    np.random.seed(99)
    random.seed(99)
    w = World(scn, clean=True)
    w.gens = {"g1": np.random.RandomState(0)}
    st = w.snapshot
    x = Inst(w, give, w.gens["g1"], colour, oneshot)
    recs = [{"op": "alone", "st": st()}]
    x.construct()
    recs.append({"op": "new", "inst": "solo", "gen": "g1",
                 "give": {"kind": "mdet%d" % colour, "cfg": "config%d" % give["cfg"],
                          "obs": "images%d" % give["obs"], "comb": "combs%d" % give["comb"]}, "may": [], "st": st()})
    for s in starts:
        x.rng.set_state(s)
        recs.append({"op": "enter", "inst": "solo", "start": gen_digest(x.rng)})
        try:
            res = x.go()
            out = "none" if res is None else "dict"
        except Exception as e:
            res, out = None, "raise:%s" % type(e).__name__
        recs.append({"op": "go", "inst": "solo", "out": out, "dig": res_digest(res),
                     "end": gen_digest(x.rng), "may": [], "raised": int(out.startswith("raise") and scn["cfgs"][x.give["cfg"]]["psf"] != BOOM), "st": st()})
    return recs


def apart(f, *a):
    """f(*a) in a process of its own"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, f(*a)))
            except BaseException as e:
                import traceback
                data = pickle.dumps((False, "%s\n%s" % (e, traceback.format_exc()[-1500:])))
            with os.fdopen(wr, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("a run brought its process down")
    ok, res = pickle.loads(data)
    if not ok:
        raise RuntimeError(res)
    return res


def execute(scn):
    import metadetect.metadetect  # noqa: imported before the processes part
    recs, runs = apart(session, scn)
    seen = set()
    for i, give, colour, oneshot, starts in runs:
        key = (json.dumps(give, sort_keys=True), colour, tuple(_h(s[1].tobytes(), s[2], s[3], s[4]) for s in starts))
        if key in seen:
            continue
        seen.add(key)
        recs += apart(solo, scn, give, colour, oneshot, starts)
    return recs


# ---------------------------------------------------------------- generation
def gen(rng, sk):
    steps = sk["steps"]
    nested = any(s[0] == "nested" for s in steps)
    nb = rng.randint(1, 3)
    obs = [{"seed": rng.randint(1, 10**6), "n": rng.choice([20, 24]), "nband": nb, "nobj": rng.randint(1, 4),
            "dirty": int(rng.random() < 0.4), "mfrac": rng.randint(0, 1)} for _ in range(2)]
    cfgs = []
    for k in range(2):
        fits = rng.choice([["wmom"], ["pgauss"], ["wmom", "am"], ["ksigma", "gauss"], ["wmom", "pgauss"], ["am"], ["gauss"]])
        cfgs.append({"psf": "fitgauss", "fitters": fits, "flat": rng.randint(0, 1), "region": rng.choice([0, 3]),
                     "types": rng.choice([[], ["noshear", "1p"], ["1m", "2p"]]), "step": rng.choice([0, 0.02]),
                     "nodet": rng.choice([-1, 0, 2])})
    cfgs[1]["psf"] = rng.choice([BOOM, BOOM, "fitgauss", "fail"])
    colour = [int(rng.random() < 0.5) for _ in range(3)]
    for k, s in enumerate(steps[:-1]):
        if steps[k + 1][0] == "nested":
            colour[s[1] - 1] = 1
    for s in steps:
        if s[0] == "new" and cfgs[s[3] - 1]["fitters"][0] in ("am", "gauss"):
            if nested and colour[s[1] - 1]:
                cfgs[s[3] - 1]["fitters"] = ["wmom", "am"]
            else:
                colour[s[1] - 1] = 0
    combs = []
    for _ in range(2):
        sh = [rng.sample(range(nb), rng.randint(1, nb)) for _ in range(rng.randint(1, 2))]
        combs.append({"shear": rng.choice([None, sh]), "det": rng.choice([None, "shear_bands"])})
    if rng.random() < 0.3:
        sh = [rng.sample(range(nb), rng.randint(1, nb)) for _ in range(2)]
        combs[1] = {"shear": sh, "det": [rng.sample(range(nb), rng.randint(1, nb)) for _ in sh]}
    return {"prop": "M11", "steps": steps, "obs": obs, "cfgs": cfgs, "combs": combs, "colour": colour,
            "comb_of": [rng.randint(0, 1) for _ in range(3)], "oneshot": [rng.randint(0, 1) for _ in range(3)]}
