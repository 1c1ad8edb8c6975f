import numpy as np
from . import Footprint, HeavyFootprint


class MultibandFootprint(object):
    def __init__(self, bands, singles):
        self.bands, self.singles = tuple(bands), singles

    @staticmethod
    def fromImages(bands, image, mask=None, variance=None, footprint=None, **kw):
        out = []
        for im in image.singles:
            v = [im.array[y - im.xy0.y, x - im.xy0.x] for x, y in footprint.getSpans().pix]
            out.append(HeavyFootprint(footprint, np.array(v, dtype=im.array.dtype)))
        return MultibandFootprint(bands, out)

    def __getitem__(self, band):
        return self.singles[self.bands.index(band)]

    def getBBox(self):
        return self.singles[0].getBBox()
