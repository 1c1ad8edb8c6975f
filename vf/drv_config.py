"""Processing flags and full configurations (specification: Flags, Config)."""
import ast
import copy

WORDS = ["shear", "edge", "psf", "object", "moments", "box", "weights", "no data", "missing", "#",
         "centroid", "deblend"]
NAMES = ["SHEAR_RANGE_ERROR", "EDGE_HIT", "PSF_FAILURE", "OBJ_FAILURE", "NOMOMENTS_FAILURE", "BAD_BBOX",
         "ZERO_WEIGHTS", "NO_DATA", "MISSING_BAND", "INCONSISTENT_BANDS", "CENTROID_FAILURE",
         "DEBLEND_FAILURE"]


def bit_of(v):
    for b in range(31):
        if v == 2**b:
            return b
    return -1


def run_table(scn):
    import ngmix.flags
    lib0 = dict(ngmix.flags.NAME_MAP)
    from metadetect import procflags
    single = [procflags.get_procflags_str(2**b) for b in range(31)]
    consts = []
    for n in NAMES:
        if hasattr(procflags, n):
            v = getattr(procflags, n)
            d = procflags.get_procflags_str(v)
            consts.append({"name": n, "bit": bit_of(v), "has": [w for w in WORDS if w in d.lower()],
                           "back": bit_of(procflags.NAME_MAP.get(d, -1))})
    lib = [bit_of(v) for k, v in vars(ngmix.flags).items() if k.isupper() and isinstance(v, int)]
    return [{"op": "table", "consts": consts, "lib": lib, "single": single,
             "libsame": int(dict(ngmix.flags.NAME_MAP) == lib0 and
                            not any("bbox" in str(k) for k in ngmix.flags.NAME_MAP))}]


def run_str(scn):
    import numpy as np
    from metadetect import procflags
    single = [procflags.get_procflags_str(2**b) for b in range(31)]
    recs = []
    for bits in scn["values"]:
        v = sum(2**b for b in bits)
        rec = {"op": "str", "v": v, "single": single, "parts": []}
        for val in (v, np.int32(v)):
            try:
                t = procflags.get_procflags_str(val)
                rec["parts"] = t.split("|") if t else []
                rec["outcome"] = "ok"
            except Exception as e:
                rec["outcome"] = "raise:" + type(e).__name__
            recs.append(copy.deepcopy(rec))
    return recs


# ------------------------------------------------------------------ configurations
def flat(c):
    out = []
    for k, v in c.items():
        if k in ("detect", "metacal", "pgauss") and isinstance(v, dict):
            out.extend([k, k2, repr(v2)] for k2, v2 in v.items())
        else:
            out.append(["", k, repr(v)])
    return sorted(out)


def put(c, e):
    v = ast.literal_eval(e[2])
    if e[0] == "":
        c[e[1]] = v
    else:
        c.setdefault(e[0], {})[e[1]] = v


def drop(c, e):
    if e[0] == "":
        c.pop(e[1], None)
    elif e[0] in c:
        c[e[0]].pop(e[1], None)


def run_hist(scn):
    from metadetect.lsst import configs, defaults
    secs = ("DEFAULT_PGAUSS_CONFIG", "DEFAULT_METACAL_CONFIG", "DEFAULT_DETECT_CONFIG")
    mod0 = {k: copy.deepcopy(getattr(defaults, k)) for k in secs if hasattr(defaults, k)}
    keep = copy.deepcopy(defaults.DEFAULT_MDET_CONFIG)
    held, recs = [{}], []
    for s in scn["steps"]:
        i = min(s["i"], len(held))
        before = [flat(c) for c in held]
        out = "ok"
        if s["act"] == "get":
            try:
                if i == 0:
                    held.append(configs.get_config() if s.get("none") else configs.get_config(None))
                else:
                    held.append(configs.get_config(held[i - 1]))
            except Exception as e:
                out = "raise:" + type(e).__name__
        elif s["act"] == "set":
            put(held[max(i, 1) - 1], s["e"])
            i = max(i, 1)
        else:
            i = max(i, 1)
            drop(held[i - 1], s["e"])
        recs.append({"op": "config", "act": s["act"], "i": i, "e": list(s["e"]), "outcome": out,
                     "before": before, "after": [flat(c) for c in held],
                     "defaults": flat(defaults.DEFAULT_MDET_CONFIG),
                     "module_same": int(all(getattr(defaults, k) == v for k, v in mod0.items()))})
    # one check must not spoil the next
    defaults.DEFAULT_MDET_CONFIG.clear()
    defaults.DEFAULT_MDET_CONFIG.update(keep)
    for k, v in mod0.items():
        getattr(defaults, k).clear()
        getattr(defaults, k).update(v)
    return recs


def run_missing(scn):
    """a section which lacks a key it needs is rejected (the defaults are spoiled for it)"""
    from metadetect.lsst import configs, defaults
    recs = []
    for sec, key in (("detect", "thresh"), ("pgauss", "fwhm")):
        for given in (None, {"deblender": "scarlet"}):
            old = defaults.DEFAULT_MDET_CONFIG[sec].pop(key)
            try:
                configs.get_config(given)
                out = "ok"
            except Exception as e:
                out = "raise:" + type(e).__name__
            defaults.DEFAULT_MDET_CONFIG[sec][key] = old
            recs.append({"op": "missing", "sec": sec, "outcome": out})
    return recs


def execute(scn):
    return {"missing": run_missing, "table": run_table, "str": run_str, "hist": run_hist}[scn["op"]](scn)


ENTRIES = [["", "deblender", "'scarlet'"], ["", "stamp_size", "39"], ["", "stamp_size", "None"],
           ["detect", "thresh", "7.0"], ["detect", "thresh", "10"], ["pgauss", "fwhm", "1.2"],
           ["metacal", "types", "['noshear', '1p']"], ["metacal", "use_noise_image", "True"],
           ["metacal", "reconv_type", "'gauss'"], ["", "subtract_sky", "True"],
           ["", "shear_bands", "['r', 'i']"], ["", "shear_bands", "None"]]
BOGUS = [["", "bogus", "1"], ["detect", "bogus", "2"], ["pgauss", "bogus", "3"], ["", "Deblender", "'x'"],
         ["pgauss", "thresh", "5.0"], ["detect", "fwhm", "5.0"], ["", "thresh", "5.0"],
         ["", "weight", "{'fwhm': 1.2}"]]


def gen_hist(rng):
    steps, n = [], 1
    for _ in range(rng.randint(2, 9)):
        t = rng.random()
        if t < 0.4:
            steps.append({"act": "get", "i": rng.choice([0, 1, 1, rng.randint(1, n)]), "e": [],
                          "none": rng.randint(0, 1)})
            n += 1
        elif t < 0.85:
            steps.append({"act": "set", "i": rng.randint(1, n),
                          "e": rng.choice(ENTRIES if rng.random() < 0.85 else BOGUS)})
        else:
            steps.append({"act": "del", "i": rng.randint(1, n), "e": rng.choice(ENTRIES)})
    steps.append({"act": "get", "i": rng.choice([0, 1]), "e": []})
    return {"op": "hist", "steps": steps}
