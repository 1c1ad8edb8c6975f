"""Stand-in for sxdes (SExtractor wrapper).

Detection model: the image is smoothed with the normalised filter kernel, masked
pixels are dropped, the 8-connected groups of at least ``minarea`` pixels above
``thresh * noise`` are the objects (in raster order of their first pixel) and an
object sits at its brightest pixel.  With a 1x1 kernel and ``minarea`` 1 an
isolated bright pixel is exactly one object.  ``HOOKS['detect']`` overrides it.
"""
import numpy as np
from ngmix import env

SX_CONFIG = {
    "minarea": 4, "filter_type": "conv",
    "deblend_cont": 0.00001, "deblend_nthresh": 64, "clean": True,
    "clean_param": 1.0, "filter_kernel": np.ones((3, 3)),
}
DETECT_THRESH = 0.8

DTYPE = [
    ("number", "i4"), ("x", "f8"), ("y", "f8"), ("xmin", "i8"), ("xmax", "i8"),
    ("ymin", "i8"), ("ymax", "i8"), ("a", "f8"), ("b", "f8"), ("theta", "f8"),
    ("flux_radius", "f8"), ("isoarea_image", "f8"), ("iso_radius", "f8"),
    ("npix", "i8"), ("flag", "i8"), ("flux_auto", "f8"), ("fluxerr_auto", "f8"),
    ("kron_radius", "f8"), ("ext_flag", "i8"), ("errflag", "i8"),
]


def run_sep(image, noise, config=None, mask=None, thresh=None, weight=None):
    config = SX_CONFIG if config is None else config
    thresh = DETECT_THRESH if thresh is None else thresh
    work = np.array(image, dtype="f8")
    bad = None if mask is None else np.asarray(mask, dtype=bool)
    if bad is not None:
        work[bad] = 0.0
    kern = np.atleast_2d(np.asarray(config.get("filter_kernel", [[1]]), dtype="f8"))
    smooth = work
    if kern.size > 1:
        from scipy.signal import convolve2d
        smooth = convolve2d(work, kern / kern.sum(), mode="same")
    ok = smooth > thresh * noise
    if bad is not None:
        ok &= ~bad
    from scipy.ndimage import label
    lab, nlab = label(ok, structure=np.ones((3, 3)))
    seg = np.zeros(work.shape, dtype="i4")
    rec = []
    if nlab:
        rr, cc = np.nonzero(lab)
        ids = lab[rr, cc]
        order = np.argsort(ids, kind="stable")
        rr, cc, ids = rr[order], cc[order], ids[order]
        cuts = np.nonzero(np.diff(ids))[0] + 1
        for r, c in zip(np.split(rr, cuts), np.split(cc, cuts)):
            if r.size < config.get("minarea", 1):
                continue
            k = int(np.argmax(work[r, c]))
            rec.append((r[k], c[k], r.min(), r.max(), c.min(), c.max(), r.size,
                        work[r, c].sum()))
            seg[r, c] = len(rec)
    objs = np.zeros(len(rec), dtype=DTYPE)
    if rec:
        t = np.array(rec, dtype="f8").T
        objs["number"] = np.arange(1, len(rec) + 1)
        objs["y"], objs["x"] = t[0], t[1]
        objs["ymin"], objs["ymax"], objs["xmin"], objs["xmax"] = t[2:6]
        objs["npix"] = objs["isoarea_image"] = t[6]
        objs["flux_auto"] = t[7]
        objs["a"] = objs["b"] = objs["flux_radius"] = 1.0
        objs["iso_radius"] = np.sqrt(t[6] / np.pi)
    h = env.hook("detect")
    if h is not None:
        objs, seg = h(image=image, noise=noise, config=config, mask=mask,
                      thresh=thresh, objs=objs, seg=seg)
    env.log("detect", image=image.copy(), noise=float(noise),
            mask=None if mask is None else np.array(mask), thresh=thresh,
            objs=objs.copy())
    return objs, seg
