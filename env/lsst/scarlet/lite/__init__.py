"""the part of scarlet_lite that models are read through"""
import numpy as np


class Box(object):
    def __init__(self, shape, origin):
        self.shape, self.origin = tuple(shape), tuple(origin)

    def grow(self, r):
        return Box([s + 2 * k for s, k in zip(self.shape, r)], [o - k for o, k in zip(self.origin, r)])

    def __and__(self, o):
        lo = [max(a, b) for a, b in zip(self.origin, o.origin)]
        hi = [min(a + s, b + t) for a, s, b, t in zip(self.origin, self.shape, o.origin, o.shape)]
        return Box([max(0, h - x) for h, x in zip(hi, lo)], lo)


class Image(object):
    """data[band, row, column] with the (row, column) of its first pixel"""

    def __init__(self, data, yx0):
        self.data, self.yx0 = data, tuple(yx0)

    n_bands = property(lambda self: self.data.shape[0])
    dtype = property(lambda self: self.data.dtype)
    bbox = property(lambda self: Box(self.data.shape[1:], self.yx0))

    def project(self, bands=None, bbox=None):
        out = np.zeros((self.data.shape[0],) + tuple(bbox.shape), dtype=self.data.dtype)
        o = self.bbox & bbox
        a, b = o.origin
        h, w = o.shape
        if h > 0 and w > 0:
            out[:, a - bbox.origin[0]:a - bbox.origin[0] + h, b - bbox.origin[1]:b - bbox.origin[1] + w] = \
                self.data[:, a - self.yx0[0]:a - self.yx0[0] + h, b - self.yx0[1]:b - self.yx0[1] + w]
        return Image(out, bbox.origin)


class Observation(object):
    def __init__(self, psfs, bbox, bands):
        self.psfs, self.bbox, self.bands = psfs, bbox, bands

    def convolve(self, image, mode=None, grad=False):
        out = np.zeros_like(image.data)
        nb, h, w = image.data.shape
        ph, pw = self.psfs.shape[1:]
        for b in range(nb):
            for i in range(ph):
                for j in range(pw):
                    di, dj = i - ph // 2, j - pw // 2
                    k = self.psfs[b, i, j]
                    if k == 0:
                        continue
                    src = image.data[b, max(0, -di):h - max(0, di), max(0, -dj):w - max(0, dj)]
                    out[b, max(0, di):h - max(0, -di), max(0, dj):w - max(0, -dj)] += k * src
        return Image(out, image.yx0)


class Source(object):
    def __init__(self, sid, center, model):
        self.metadata = {"id": sid}
        self.center, self._model = center, model
        self.bbox = model.bbox
        self.flux_weighted_image = model

    def get_model(self, use_flux=False):
        return self._model


class Blend(object):
    def __init__(self, sources, observation):
        self.sources, self.observation = sources, observation
        self.bands = observation.bands
