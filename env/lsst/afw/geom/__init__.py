"""sky coordinate systems and span sets"""
import numpy as np
from lsst.geom import AffineTransform, Point2D, SpherePoint, degrees, arcseconds, Box2I, Point2I, Extent2I


class FlatWcs(object):
    """affine coordinate system: (ra, dec) = sky0 + M (x - x0) arcsec"""

    def __init__(self, x0=0.0, y0=0.0, m=((1, 0), (0, 1)), ra0=0.0, dec0=0.0):
        self.x0, self.y0, self.m = float(x0), float(y0), np.array(m, dtype="f8")
        self.ra0, self.dec0 = float(ra0), float(dec0)
        self.inv = np.linalg.inv(self.m)

    def pixelToSky(self, p, y=None):
        if y is not None:
            p = Point2D(p, y)
        s = self.m @ np.array([p.x - self.x0, p.y - self.y0]) / 3600
        return SpherePoint(self.ra0 + s[0], self.dec0 + s[1], degrees)

    def skyToPixel(self, sky):
        d = np.array([sky.getRa().asDegrees() - self.ra0, sky.getDec().asDegrees() - self.dec0]) * 3600
        v = self.inv @ d
        return Point2D(v[0] + self.x0, v[1] + self.y0)

    def skyToPixelArray(self, ra, dec, degrees=False):
        ra, dec = np.atleast_1d(ra).astype("f8"), np.atleast_1d(dec).astype("f8")
        if not degrees:
            ra, dec = np.degrees(ra), np.degrees(dec)
        d = np.array([ra - self.ra0, dec - self.dec0]) * 3600
        v = self.inv @ d
        return v[0] + self.x0, v[1] + self.y0

    def linearizePixelToSky(self, p, unit):
        return AffineTransform(self.m / 3600 / unit.deg)

    def clone(self):
        return FlatWcs(self.x0, self.y0, self.m, self.ra0, self.dec0)

    def __eq__(self, o):
        return isinstance(o, FlatWcs) and self.__key() == o.__key()

    __hash__ = None

    def __key(self):
        return (self.x0, self.y0, self.ra0, self.dec0, self.m.tolist())


SkyWcs = FlatWcs


class SpanSet(object):
    def __init__(self, pixels=()):
        if isinstance(pixels, Box2I):
            b = pixels
            pixels = [(x, y) for y in range(b.y0, b.getEndY()) for x in range(b.x0, b.getEndX())]
        self.pix = sorted({(int(x), int(y)) for x, y in pixels}, key=lambda p: (p[1], p[0]))

    @staticmethod
    def fromMask(mask, bit=None):
        rr, cc = np.nonzero(mask.array)
        return SpanSet([(c + mask.xy0.x, r + mask.xy0.y) for r, c in zip(rr, cc)])

    def getBBox(self):
        if not self.pix:
            return Box2I()
        xs, ys = [p[0] for p in self.pix], [p[1] for p in self.pix]
        return Box2I(Point2I(min(xs), min(ys)), Point2I(max(xs), max(ys)))

    def getArea(self):
        return len(self.pix)

    def indices(self):
        return [p[1] for p in self.pix], [p[0] for p in self.pix]
