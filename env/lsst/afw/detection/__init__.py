"""footprints and peaks"""
import numpy as np
from lsst.geom import Box2I, Point2I, Point2D
from lsst.pex.exceptions import LengthError
from lsst.afw.geom import SpanSet


class PeakRecord(object):
    def __init__(self, x, y, value=0.0):
        self.x, self.y, self.value = float(x), float(y), value

    def getI(self):
        return Point2I(self.x, self.y)

    def getIx(self):
        return self.getI().x

    def getIy(self):
        return self.getI().y

    def getF(self):
        return Point2D(self.x, self.y)

    getCentroid = getF

    def getFx(self):
        return self.x

    def getFy(self):
        return self.y

    def getPeakValue(self):
        return self.value


class Footprint(object):
    def __init__(self, spans=None, region=None):
        self.spans = spans if spans is not None else SpanSet()
        self.peaks = []

    def addPeak(self, x, y, value=0.0):
        p = PeakRecord(x, y, value)
        self.peaks.append(p)
        return p

    def getPeaks(self):
        return self.peaks

    def getBBox(self):
        return self.spans.getBBox()

    def getSpans(self):
        return self.spans

    def getArea(self):
        return self.spans.getArea()

    def isHeavy(self):
        return False


class HeavyFootprint(Footprint):
    """a footprint that holds its pixels"""

    def __init__(self, fp, values, masks=None, variances=None):
        super().__init__(fp.getSpans())
        self.peaks = list(fp.getPeaks())
        self.values, self.masks, self.variances = values, masks, variances

    def isHeavy(self):
        return True

    def _each(self, image):
        b = image.getBBox()
        for i, (x, y) in enumerate(self.spans.pix):
            if not b.contains(Point2I(x, y)):
                raise LengthError("footprint pixel (%d, %d) outside %r" % (x, y, b))
            yield i, y - image.getXY0().y, x - image.getXY0().x

    def addTo(self, image):
        for i, r, c in list(self._each(image)):
            image.array[r, c] += self.values[i]

    def subtractFrom(self, image):
        for i, r, c in list(self._each(image)):
            image.array[r, c] -= self.values[i]

    def insert(self, mi):
        for i, r, c in list(self._each(mi)):
            mi.image.array[r, c] = self.values[i]
            if self.masks is not None:
                mi.mask.array[r, c] = self.masks[i]
            if self.variances is not None:
                mi.variance.array[r, c] = self.variances[i]

    def extractImage(self, fill=np.nan, bbox=None, imageType=None):
        from lsst.afw.image import ImageF
        im = ImageF(bbox or self.getBBox())
        for i, r, c in list(self._each(im)):
            im.array[r, c] = self.values[i]
        return im


HeavyFootprintF = HeavyFootprint


def makeHeavyFootprint(fp, mi):
    b = mi.getXY0()
    ix = [(y - b.y, x - b.x) for x, y in fp.getSpans().pix]
    for (r, c), (x, y) in zip(ix, fp.getSpans().pix):
        if not mi.getBBox().contains(Point2I(x, y)):
            raise LengthError("footprint outside image")
    return HeavyFootprint(fp, *[np.array([p.array[i] for i in ix], dtype=p.array.dtype)
                                for p in (mi.image, mi.mask, mi.variance)])
