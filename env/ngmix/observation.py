from contextlib import contextmanager
import numpy as np
from .jacobian import Jacobian, UnitJacobian
from .gexceptions import GMixFatalError

_PIX_DT = [("u", "f8"), ("v", "f8"), ("area", "f8"), ("val", "f8"),
           ("ierr", "f8"), ("fdiff", "f8"), ("row", "i4"), ("col", "i4")]


def make_pixels(image, weight, jacob, ignore_zero_weight=True):
    rows, cols = np.mgrid[0:image.shape[0], 0:image.shape[1]]
    keep = weight > 0 if ignore_zero_weight else np.ones(image.shape, bool)
    if not np.any(keep):
        raise GMixFatalError("no weights > 0")
    v, u = jacob.get_vu(rows[keep], cols[keep])
    pix = np.zeros(keep.sum(), dtype=_PIX_DT)
    pix["u"], pix["v"] = u, v
    pix["area"] = jacob.area
    pix["val"] = image[keep]
    w = weight[keep].copy()
    w[~(w > 0)] = 0
    pix["ierr"] = np.sqrt(w)
    pix["row"], pix["col"] = rows[keep], cols[keep]
    return pix


class Observation(object):
    """image + weight + masks + jacobian + psf; read-only unless writeable()"""

    def __init__(self, image, weight=None, bmask=None, ormask=None, noise=None,
                 jacobian=None, gmix=None, psf=None, meta=None, mfrac=None,
                 store_pixels=True, ignore_zero_weight=True):
        self._writeable = False
        self._ignore_zero_weight = ignore_zero_weight
        self._store_pixels = store_pixels
        self._busy = True
        self.set_image(image)
        self.set_weight(weight)
        self.set_jacobian(jacobian)
        self.set_bmask(bmask)
        self.set_ormask(ormask)
        self.set_noise(noise)
        self.set_mfrac(mfrac)
        self.set_gmix(gmix)
        self.set_psf(psf)
        self.set_meta(meta)
        self._busy = False
        self.update_pixels()

    # -- views ---------------------------------------------------------
    def _view(self, arr):
        v = arr.view()
        if not self._writeable:
            v.flags["WRITEABLE"] = False
        return v

    def _need(self, name):
        try:
            return self.__dict__["_" + name]
        except KeyError:
            raise AttributeError("Observation has no attribute '%s'" % name)

    image = property(lambda s: s._view(s._need("image")),
                     lambda s, v: s.set_image(v))
    weight = property(lambda s: s._view(s._need("weight")),
                      lambda s, v: s.set_weight(v))
    bmask = property(lambda s: s._view(s._need("bmask")),
                     lambda s, v: s.set_bmask(v))
    ormask = property(lambda s: s._view(s._need("ormask")),
                      lambda s, v: s.set_ormask(v))
    noise = property(lambda s: s._view(s._need("noise")),
                     lambda s, v: s.set_noise(v))
    mfrac = property(lambda s: s._view(s._need("mfrac")),
                     lambda s, v: s.set_mfrac(v))
    psf = property(lambda s: s._need("psf"), lambda s, v: s.set_psf(v))
    gmix = property(lambda s: s._need("gmix").copy(),
                    lambda s, v: s.set_gmix(v))
    meta = property(lambda s: s._need("meta"), lambda s, v: s.set_meta(v))

    @property
    def jacobian(self):
        return self._jacobian if self._writeable else self._jacobian.copy()

    @jacobian.setter
    def jacobian(self, v):
        self.set_jacobian(v)

    @property
    def pixels(self):
        if not self._store_pixels:
            raise RuntimeError("this observation is not storing pixels")
        return self._pixels

    @property
    def store_pixels(self):
        return self._store_pixels

    @property
    def ignore_zero_weight(self):
        return self._ignore_zero_weight

    @ignore_zero_weight.setter
    def ignore_zero_weight(self, v):
        self._ignore_zero_weight = v
        if not self._writeable:
            self.update_pixels()

    # -- setters -------------------------------------------------------
    def _chk(self, arr):
        if arr.shape != self._image.shape:
            raise ValueError("image and array must be same shape")

    def _set(self, name, arr, dtype):
        if arr is None:
            self.__dict__.pop("_" + name, None)
            return
        arr = np.ascontiguousarray(arr, dtype=dtype)
        if arr.ndim != 2:
            raise ValueError("%s must be 2d" % name)
        if name != "image":
            self._chk(arr)
        elif hasattr(self, "_image"):
            self._chk(arr)
        self.__dict__["_" + name] = arr

    def set_image(self, image, update_pixels=True):
        self._set("image", image, "f8")
        if update_pixels:
            self._touch()

    def set_weight(self, weight, update_pixels=True):
        if weight is None:
            weight = np.ones(self._image.shape)
        self._set("weight", weight, "f8")
        if update_pixels:
            self._touch()

    def set_bmask(self, v):
        self._set("bmask", v, "i4")

    def set_ormask(self, v):
        self._set("ormask", v, "i4")

    def set_noise(self, v):
        self._set("noise", v, "f8")

    def set_mfrac(self, v):
        self._set("mfrac", v, "f8")

    def set_jacobian(self, jac, update_pixels=True):
        if jac is None:
            cen = (np.array(self._image.shape) - 1.0) / 2.0
            jac = UnitJacobian(row=cen[0], col=cen[1])
        if not isinstance(jac, Jacobian):
            raise TypeError("jacobian must be of type Jacobian")
        self._jacobian = jac.copy()
        if update_pixels:
            self._touch()

    def set_psf(self, psf):
        if psf is None:
            self.__dict__.pop("_psf", None)
            return
        if not isinstance(psf, Observation):
            raise TypeError("psf must be of class Observation")
        self._psf = psf

    def set_gmix(self, gmix):
        if gmix is None:
            self.__dict__.pop("_gmix", None)
            return
        self._gmix = gmix.copy()

    def set_meta(self, meta):
        if meta is None:
            meta = {}
        if not isinstance(meta, dict):
            raise TypeError("meta data must be in dictionary form")
        self._meta = meta

    def update_meta_data(self, meta):
        self._meta.update(meta)

    def set_store_pixels(self, v):
        self._store_pixels = v
        self._touch()

    # -- queries -------------------------------------------------------
    def has_bmask(self):
        return hasattr(self, "_bmask")

    def has_ormask(self):
        return hasattr(self, "_ormask")

    def has_noise(self):
        return hasattr(self, "_noise")

    def has_mfrac(self):
        return hasattr(self, "_mfrac")

    def has_psf(self):
        return hasattr(self, "_psf")

    def has_gmix(self):
        return hasattr(self, "_gmix")

    def has_psf_gmix(self):
        return self.has_psf() and self._psf.has_gmix()

    def get_psf(self):
        return self.psf

    def get_gmix(self):
        return self.gmix

    def get_psf_gmix(self):
        return self.psf.gmix

    def get_jacobian(self):
        return self._jacobian.copy()

    def get_meta(self):
        return self._meta

    def get_s2n(self):
        s2 = (1.0 / self._weight[self._weight > 0]).sum()
        return self._image[self._weight > 0].sum() / np.sqrt(s2)

    # -- lifecycle -----------------------------------------------------
    @contextmanager
    def writeable(self):
        self._writeable = True
        try:
            yield self
        finally:
            self._writeable = False
        self.update_pixels()

    def _touch(self):
        if not getattr(self, "_busy", False) and not self._writeable:
            self.update_pixels()

    def update_pixels(self):
        if self._store_pixels:
            self._pixels = make_pixels(
                self._image, self._weight, self._jacobian,
                self._ignore_zero_weight)
        else:
            self._pixels = None

    def copy(self):
        def g(n):
            a = self.__dict__.get("_" + n)
            return None if a is None else a.copy()
        return Observation(
            g("image"), weight=g("weight"), bmask=g("bmask"),
            ormask=g("ormask"), noise=g("noise"), mfrac=g("mfrac"),
            gmix=g("gmix"), jacobian=self._jacobian,
            psf=g("psf"), meta=dict(self._meta),
            store_pixels=self._store_pixels,
            ignore_zero_weight=self._ignore_zero_weight)

    def __deepcopy__(self, memo):
        return self.copy()


class KObservation(Observation):
    pass


class ObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {} if meta is None else meta

    def append(self, obs):
        assert isinstance(obs, Observation), "obs must be an Observation"
        super().append(obs)

    def set_meta(self, meta):
        self.meta = {} if meta is None else meta

    def update_meta_data(self, meta):
        self.meta.update(meta)

    def copy(self):
        new = ObsList(meta=dict(self.meta))
        for o in self:
            new.append(o.copy())
        return new

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()


class MultiBandObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {} if meta is None else meta

    def append(self, obs_list):
        assert isinstance(obs_list, ObsList), "must be an ObsList"
        super().append(obs_list)

    def set_meta(self, meta):
        self.meta = {} if meta is None else meta

    def update_meta_data(self, meta):
        self.meta.update(meta)

    def copy(self):
        new = MultiBandObsList(meta=dict(self.meta))
        for ol in self:
            new.append(ol.copy())
        return new

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()


def get_mb_obs(obs_in):
    if isinstance(obs_in, Observation):
        ol = ObsList()
        ol.append(obs_in)
        obs_in = ol
    if isinstance(obs_in, ObsList):
        mb = MultiBandObsList()
        mb.append(obs_in)
        return mb
    if isinstance(obs_in, MultiBandObsList):
        return obs_in
    raise ValueError("obs should be Observation, ObsList, or MultiBandObsList")
