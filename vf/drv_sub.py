"""Model subtractors and noise replacers (specification: Subtract)."""
import contextlib
import numpy as np
from .num import fx, grid, igrid
from .drv_lexp import exposure, freeze, raised, source


class KeyboardError(Exception):
    """raised inside contexts on purpose"""


def frame(e):
    return [e["x"], e["y"], len(e["im"][0]), len(e["im"])]


# ------------------------------------------------------------------ L05
def build_models(scn, cat):
    import lsst.scarlet.lite as scl
    from lsst.pipe.base import Struct
    bands = scn["mbands"]
    order = [scn["names"].index(b) for b in bands]
    ker = np.array([scn["ker"][k] for k in order], dtype="f4")
    ox, oy, ow, oh = scn["obs"]
    blends = {}
    for g, group in enumerate(scn["groups"]):
        srcs = []
        for k in group:
            s = scn["srcs"][k]
            data = np.array([s["models"][b]["m"] for b in order], dtype="f4")
            x, y, w, h = s["models"][0]["box"]
            srcs.append(scl.Source(s["id"], (y + h // 2, x + w // 2), scl.Image(data, (y, x))))
        obs = scl.Observation(ker, scl.Box((oh, ow), (oy, ox)), tuple(bands))

        class Data(object):
            def __init__(self, b):
                self.b = b

            def minimal_data_to_blend(self, model_psf=None, psf=None, bands=None, **kw):
                self.b.observation.bands = tuple(bands)
                return self.b
        blends[g] = Struct(children={g: Data(scl.Blend(srcs, obs))})
    return Struct(metadata={"bands": tuple(bands), "model_psf": np.ones((1, 1)), "psf": ker}, blends=blends)


def run_subtract(scn):
    from metadetect.lsst import util
    from metadetect.lsst.model_subtractor import ModelSubtractor
    from lsst.afw.table import SourceCatalog
    names = scn["names"]
    xs = [exposure(e, [[1]], b) for e, b in zip(scn["exps"], names)]
    mb = util.get_mbexp(xs)
    cat = SourceCatalog()
    wcs = xs[0].getWcs()
    for s in scn["cat"]:
        cat.append(source(fpbox=s["fp"], peak=s["peak"], cen=[8 * s["peak"][0], 8 * s["peak"][1]],
                          coord=[8 * s["peak"][0], 8 * s["peak"][1]], wcs=wcs, sid=s["id"], more=s.get("more", ()),
                          deblend_nChild=s["nchild"]))
    frz = [freeze(s) for s in mb.singles]
    rec = {"op": "subtract", "names": names, "fr": frame(scn["exps"][0]), "obs": scn["obs"],
           "exps": [e["im"] for e in scn["exps"]], "ids": [s["id"] for s in scn["srcs"]],
           "models": [s["models"] for s in scn["srcs"]], "ker": scn["ker"], "events": [], "built": "ok"}
    try:
        sub = ModelSubtractor(mb, cat, build_models(scn, cat))
    except Exception as e:
        rec["built"] = raised(e)
        return [rec]

    def event(t, **kw):
        ev = {"t": t, "id": 0, "how": "", "outcome": "ok", "kind": "", "box": [], "planes": [], "bands": [],
              "listed": [], "records": [], "asked": [], "refused": ""}
        ev.update(kw)
        ev["im"] = [grid(sub.mbexp[b].image.array) for b in names]
        ev["orig_same"] = int([freeze(s) for s in mb.singles] == frz)
        rec["events"].append(ev)

    def look(what):
        sid, kind, via, asked = what["id"], what["kind"], what["via"], {}
        try:
            if kind == "full":
                m = sub.get_full_model()
                event("full", planes=[grid(m[b].image.array) for b in names], bands=list(m.bands))
            elif kind == "model":
                kw = {"stamp_size": what["size"], "clip": bool(what["clip"])} if what["size"] >= 0 else {}
                if kw:
                    # the box of a stamp of that size, if it is granted
                    try:
                        b = sub.get_bbox(sid, **kw)
                        asked = {"asked": [b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight()]}
                    except Exception as e:
                        asked = {"refused": raised(e)}
                m = sub.get_model(sid, **kw) if via == "get" else sub.get_stamp(sid, type="model", **kw)
                b = m.getBBox()
                event("model", id=sid, **asked, planes=[grid(s.image.array) for s in m.singles], bands=list(m.bands),
                      box=[b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight()])
            else:
                kw = {} if kind == "deblended" and what["dflt"] else {"type": kind}
                if what["size"] >= 0:
                    kw.update(stamp_size=what["size"], clip=True)
                b = sub.get_bbox(sid, **{k: v for k, v in kw.items() if k != "type"})
                if via == "get":
                    m = sub.get_stamp(sid, **kw)
                    pl, bands = [grid(s.image.array) for s in m.singles], list(m.bands)
                else:
                    m = sub.get_mbobs(sid, **kw)
                    pl, bands = [grid(o[0].image) for o in m], [o.meta["band"] for o in m]
                event("stamp", id=sid, kind=kind, planes=pl, bands=bands,
                      box=[b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight()])
        except Exception as e:
            event({"full": "full", "model": "model"}.get(kind, "stamp"), id=sid, kind=kind, outcome=raised(e), **asked)

    listed = [int(i) for i in sub.child_ids()]
    event("start", listed=listed, records=[int(s.getId()) for s in sub.children()])

    def play(evs, i):
        """runs events from i until the context that is open is left; next index"""
        while i < len(evs):
            v = evs[i]
            if v["t"] == "look":
                look(v)
                i += 1
            elif v["t"] == "leave":
                if v["how"] == "error":
                    err = KeyboardError(i)
                    raise err
                return i
            else:
                try:
                    ctx = sub.add_source(v["id"])
                    entered = False
                    with ctx as y:
                        entered = True
                        event("enter", id=v["id"])
                        j = play(evs, i + 1)
                    if j < len(evs):
                        event("leave", id=v["id"], how="normal")
                    i = j + 1
                except KeyboardError as k:
                    j = k.args[0]
                    event("leave", id=v["id"], how="error", outcome=raised(k))
                    i = j + 1
                except Exception as e:
                    if entered:
                        event("leave", id=v["id"], how="normal", outcome=raised(e))
                        return len(evs)
                    event("enter", id=v["id"], outcome=raised(e))
                    i += 1
        return len(evs)
    evs = close(scn["events"], [s["id"] for s in scn["srcs"]])
    play(evs, 0)
    return [rec]


def close(evs, ids):
    """adds the missing leaves"""
    depth, out = 0, []
    for v in evs:
        if v["t"] == "enter" and v["id"] in ids:
            depth += 1
        if v["t"] == "leave":
            depth -= 1
        out.append(v)
    return out + [{"t": "leave", "how": "normal"}] * depth


# ------------------------------------------------------------------ L06
def pixels(fp):
    return [[x, y] for x, y in fp]


def cat_of(scn, wcs=None):
    from lsst.afw.detection import Footprint
    from lsst.afw.geom import SpanSet
    from lsst.afw.table import SourceRecord, SourceCatalog
    cat = SourceCatalog()
    for s in scn["srcs"]:
        fp = Footprint(SpanSet([tuple(p) for p in s["fp"]]))
        fp.addPeak(s["fp"][0][0], s["fp"][0][1], 1.0)
        cat.append(SourceRecord(s["id"], s["parent"], fp, deblend_nChild=s["nchild"]))
    return cat


def run_replace(scn):
    from metadetect.lsst import util
    names = scn["names"]
    xs = [exposure(e, [[1]], b) for e, b in zip(scn["exps"], names)]
    multi = scn["how"] == "multi"
    mb = util.get_mbexp(xs)
    exps = mb.singles if multi else [xs[0]]
    cat = cat_of(scn)
    orig = [grid(x.image.array, 100) for x in exps]
    frz = [freeze(x) for x in exps]
    rng = np.random.RandomState(scn["seed"])
    given, kw = [], {}
    if scn["given"]:
        n = exposure(scn["noise"], None, "n")
        kw["noise_image"] = n.maskedImage
        given = [grid(n.image.array, 100)]
    sig = []
    if scn["how"] == "plain":
        sig = [] if scn["given"] else []
    else:
        for e in scn["exps"][:len(exps)]:
            v = sorted(c for r in e["var"] for c in r if abs(c) < 10**9)
            sig.append(fx(np.sqrt(np.median(v) / 4), 100))
        if scn["given"]:
            sig = []
    rec = {"op": "replace", "fr": frame(scn["exps"][0]), "ids": [s["id"] for s in scn["srcs"]],
           "fps": [s["fp"] for s in scn["srcs"]], "orig": orig, "fill": [], "given": given, "sig": sig,
           "events": [], "built": "ok"}

    def event(t, **kw):
        ev = {"t": t, "id": 0, "how": "", "outcome": "ok", "exact": int([freeze(x) for x in exps] == frz)}
        ev.update(kw)
        ev["im"] = [grid(x.image.array, 100) for x in exps]
        rec["events"].append(ev)

    def play(r, evs, i):
        while i < len(evs):
            v = evs[i]
            if v["t"] == "look":
                event("look")
                i += 1
            elif v["t"] == "leave":
                if v["how"] == "error":
                    raise KeyboardError(i)
                return i
            else:
                try:
                    cm = r.sourceInserted(v["id"]) if hasattr(r, "sourceInserted") else plain(r, v["id"])
                    with cm:
                        event("enter", id=v["id"])
                        j = play(r, evs, i + 1)
                    if j < len(evs):
                        event("leave", id=v["id"], how="normal")
                    i = j + 1
                except KeyboardError as k:
                    event("leave", id=v["id"], how="error", outcome=raised(k))
                    i = k.args[0] + 1
        return len(evs)

    @contextlib.contextmanager
    def plain(r, sid):
        r.insertSource(sid)
        try:
            yield
        finally:
            r.removeSource(sid)

    evs = close([v for v in scn["events"]], rec["ids"])
    try:
        if multi:
            r = util.MultibandNoiseReplacer(mbexp=mb, sources=cat, rng=rng)
        elif scn["how"] == "single":
            r = util.ContextNoiseReplacer(exposure=xs[0], sources=cat, rng=rng, **kw)
        else:
            r = util.get_noise_replacer(xs[0], cat, **kw)
    except Exception as e:
        rec["built"] = raised(e)
        return [rec]
    rec["fill"] = [grid(x.image.array, 100) for x in exps]
    event("look")
    out = "ok"
    try:
        if scn["how"] == "plain":
            play(r, evs, 0)
            r.end()
        else:
            with r as rr:
                play(rr, evs, 0)
                if scn["end"] == "error":
                    raise KeyboardError(0)
    except KeyboardError as k:
        out = raised(k)
    except Exception as e:
        out = raised(e)
    event("end", how=scn["end"] if scn["how"] != "plain" else "normal", outcome=out)
    return [rec]


def run_noise(scn):
    from metadetect.lsst import util

    class Amp(object):
        def __init__(self, g):
            self.g = g

        def getGain(self):
            return self.g

    class Det(object):
        def getAmplifiers(self):
            return [Amp(scn["gain"] - 1), Amp(scn["gain"] + 1)]
    x = exposure(scn["exp"], [[1]], "i")
    x.setDetector(Det())
    before = freeze(x)
    e = scn["exp"]
    rec = {"op": "noiseimage", "fr": frame(e), "poisson": scn["poisson"], "gain": scn["gain"],
           "n": len(e["im"]) * len(e["im"][0]), "outfr": [], "outvar": [], "ms2": 0}
    # in units of the variance itself
    rec["im"] = [fx(v) for v in x.image.array.ravel()]
    rec["var"] = [fx(v) for v in x.variance.array.ravel()]
    try:
        n = util.get_noise_image(x, rng=np.random.RandomState(scn["seed"]), remove_poisson=bool(scn["poisson"]))
        b = n.getBBox()
        rec["outfr"] = [b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight()]
        rec["outvar"] = sorted({fx(v, 1000) for v in n.variance.array.ravel()})
        rec["ms2"] = fx(2 * float(np.mean(n.image.array.astype("f8")**2)), 1000)
        rec["outcome"] = "ok"
        n.image.array[:, :] = -1
        n.variance.array[:, :] = -1
        n.mask.array[:, :] = 12345
    except Exception as ex:
        rec["outcome"] = raised(ex)
    rec["same"] = int(freeze(x) == before)
    return [rec]


def execute(scn):
    return {"subtract": run_subtract, "replace": run_replace, "noise": run_noise}[scn["op"]](scn)


# ------------------------------------------------------------------ scenarios
KERS = {1: [[[1]], [[2]]],
        3: [[[0, 0, 0], [0, 1, 0], [0, 0, 0]], [[0, 1, 0], [0, 2, 3], [0, 0, 0]], [[1, 0, 0], [0, 1, 0], [0, 0, 2]],
            [[1, 1, 1], [1, 2, 1], [1, 1, 1]]]}


def base_exp(rng, x, y, w, h, lo, hi):
    return {"x": x, "y": y, "m": [4, 0, 0, 4], "im": [[rng.randint(lo, hi) for _ in range(w)] for _ in range(h)],
            "var": [[rng.choice([4, 4, 8]) for _ in range(w)] for _ in range(h)],
            "mask": [[rng.choice([0, 0, 1, 32]) for _ in range(w)] for _ in range(h)]}


def gen_events(rng, ids, stranger, n=None):
    evs, st = [], []
    for _ in range(n or rng.randint(2, 9)):
        t = rng.random()
        if t < 0.4:
            s = rng.choice(ids + [stranger]) if rng.random() < 0.3 else rng.choice(ids)
            if s in st:
                continue
            evs.append({"t": "enter", "id": s, "how": "normal"})
            if s in ids:
                st.append(s)
        elif t < 0.7 and st:
            evs.append({"t": "leave", "id": st.pop(), "how": rng.choice(["normal", "normal", "error"])})
        else:
            evs.append({"t": "look", "id": rng.choice(ids)})
    return evs


def kernel(rng, kh, kw):
    if kh == kw and kh in KERS:
        return rng.choice(KERS[kh])
    return [[rng.choice([0, 1, 1, 2, 3]) if (i, j) != (kh // 2, kw // 2) else rng.randint(2, 4) for j in range(kw)]
            for i in range(kh)]


def gen_subtract(rng, sk=None):
    w, h = rng.randint(8, 13), rng.randint(8, 13)
    x, y = rng.choice([(0, 0), (100, 7), (-5, -11)])
    nb = rng.choice([1, 2, 2, 3])
    names = rng.sample("grizy", nb)
    mbands = rng.sample(names, nb)
    kh, kw = rng.choice([(1, 1), (3, 3), (3, 3), (3, 1), (1, 3), (5, 3), (3, 5)])
    ns = 3 if sk else rng.randint(1, 4)
    ids = [1, 2, 3] if sk else rng.sample(range(1, 60), ns)
    stranger = 9 if sk else 77
    # the observed frame of the models: the exposure, or a part of it
    obs = [x, y, w, h] if rng.random() < 0.6 else [x + 1, y + 2, w - 2, h - 2]
    srcs, cat = [], []
    for i in range(ns):
        while True:
            bw, bh = rng.randint(1, 4), rng.randint(1, 4)
            bx, by = rng.randint(x, x + w - bw), rng.randint(y, y + h - bh)
            gx, gy = kw // 2, kh // 2
            x0, y0 = max(bx - gx, obs[0]), max(by - gy, obs[1])
            x1, y1 = min(bx + bw + gx, obs[0] + obs[2]), min(by + bh + gy, obs[1] + obs[3])
            # part of the model must be observed
            cx0, cy0 = max(bx, obs[0]), max(by, obs[1])
            cx1, cy1 = min(bx + bw, obs[0] + obs[2]), min(by + bh, obs[1] + obs[3])
            if cx0 < cx1 and cy0 < cy1:
                break
        dense = rng.random() < 0.7
        models = [{"box": [bx, by, bw, bh], "m": [[rng.randint(1, 9) if dense or rng.random() < 0.6 else 0
                                                   for _ in range(bw)] for _ in range(bh)]} for _ in range(nb)]
        for mo in models:
            mo["m"][cy0 - by][cx0 - bx] = rng.randint(1, 9)
        srcs.append({"id": ids[i], "models": models})
        # the footprint holds the whole convolved model, and may be larger
        fx0, fy0 = max(x, x0 - rng.randint(0, 1)), max(y, y0 - rng.randint(0, 1))
        fx1, fy1 = min(x + w, x1 + rng.randint(0, 1)), min(y + h, y1 + rng.randint(0, 1))
        cat.append({"id": ids[i], "fp": [fx0, fy0, fx1 - fx0, fy1 - fy0], "nchild": 0,
                    "peak": [rng.randint(fx0, fx1 - 1), rng.randint(fy0, fy1 - 1)]})
        if rng.random() < 0.2:
            cat[-1]["more"] = [[rng.randint(fx0, fx1 - 1), rng.randint(fy0, fy1 - 1)] for _ in range(rng.randint(1, 2))]
    # a parent in the catalogue has no model
    cat.append({"id": stranger, "fp": [x, y, 2, 2], "nchild": ns, "peak": [x, y]})
    rng.shuffle(cat)
    groups = [[i for i in range(ns) if i % 2 == q] for q in (0, 1)] if rng.random() < 0.5 else [list(range(ns))]
    evs = sk["events"] if sk else gen_events(rng, ids, stranger)
    out = []
    for v in evs:
        if v["t"] == "look":
            kind = rng.choice(["deblended", "deblended", "deblended", "original", "model", "full"])
            v = {"t": "look", "id": v["id"] if rng.random() < 0.9 else stranger, "kind": kind,
                 "via": rng.choice(["get", "obs"]), "size": rng.choice([-1, 0, 2, 3, 6]), "clip": rng.randint(0, 1), "dflt": rng.randint(0, 1)}
            if kind == "full":
                v["id"] = ids[0]
        out.append(v)
    return {"op": "subtract", "names": names, "mbands": mbands, "obs": obs, "srcs": srcs, "cat": cat,
            "groups": [g for g in groups if g], "ker": [kernel(rng, kh, kw) for _ in range(nb)],
            "exps": [base_exp(rng, x, y, w, h, -20, 200) for _ in range(nb)], "events": out}


def gen_replace(rng, sk=None):
    w, h = rng.randint(8, 14), rng.randint(8, 14)
    x, y = rng.choice([(0, 0), (50, 3), (-4, -9)])
    nb = rng.choice([1, 2, 3])
    # non overlapping children, some of them with a parent that holds them
    cells = [(a, b) for a in range(w // 4) for b in range(h // 4)]
    rng.shuffle(cells)
    n = min(len(cells), 3 if sk else rng.randint(1, 4))
    if sk and n < 3:
        return None
    ids = [1, 2, 3] if sk else rng.sample(range(1, 90), n)
    srcs = []
    for i in range(n):
        a, b = cells[i]
        px = [[x + 4 * a + c, y + 4 * b + r] for r in range(4) for c in range(4) if rng.random() < 0.6]
        srcs.append({"id": ids[i], "fp": px or [[x + 4 * a, y + 4 * b]], "parent": 0, "nchild": 0})
    if n > 1 and rng.random() < 0.5:
        kids = srcs[:2]
        for s in kids:
            s["parent"] = 300
        srcs.append({"id": 300, "fp": sorted([p for s in kids for p in s["fp"]], key=lambda p: (p[1], p[0])),
                     "parent": 0, "nchild": 2})
    for s in srcs:
        s["fp"] = sorted(s["fp"], key=lambda p: (p[1], p[0]))
    evs = [v for v in (sk["events"] if sk else gen_events(rng, ids, ids[0])) if not (v["t"] == "enter" and v["id"] not in ids)]
    how = rng.choice(["single", "single", "multi", "multi", "plain"])
    given = int(how != "multi" and (how == "plain" or rng.random() < 0.4))
    exps = [base_exp(rng, x, y, w, h, 1500, 3000) for _ in range(nb)]
    for e in exps:
        s = rng.choice([1, 4, 100, 900])
        e["var"] = [[s * v for v in r] for r in e["var"]]
        if rng.random() < 0.3:
            e["var"][0][0] = 2000000002
            e["var"][1][0] = 2000000001
    return {"op": "replace", "how": how, "names": rng.sample("grizy", nb), "exps": exps, "srcs": srcs,
            "given": given, "noise": base_exp(rng, x, y, w, h, -9, 9), "events": evs,
            "end": rng.choice(["normal", "normal", "error"]), "seed": rng.randint(0, 10**6)}


def gen_noise(rng):
    w, h = rng.choice([(3, 4), (20, 25), (25, 30)])
    e = base_exp(rng, rng.choice([0, 9]), rng.choice([0, -4]), w, h, 0, 40)
    s = rng.choice([1, 4, 16])
    e["var"] = [[4 * s * rng.choice([20, 30, 40]) for _ in r] for r in e["var"]]
    gain = rng.choice([2, 4])
    e["im"] = [[gain * rng.randint(0, 4) for _ in r] for r in e["im"]]
    if rng.random() < 0.5:
        for _ in range(w):
            e["var"][rng.randrange(h)][rng.randrange(w)] = rng.choice([2000000001, 2000000002])
    if rng.random() < 0.3:
        for _ in range(w):
            e["im"][rng.randrange(h)][rng.randrange(w)] = float("nan")
    return {"op": "noise", "exp": e, "poisson": rng.randint(0, 1), "gain": gain, "seed": rng.randint(0, 10**6)}
