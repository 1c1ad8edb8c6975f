"""points, extents, integer boxes, angles and sky positions"""
import math
import numpy as np


class _Pair(object):
    def __init__(self, x=0, y=None):
        if y is None:
            if hasattr(x, "x"):
                x, y = x.x, x.y
            elif np.ndim(x):
                x, y = x
            else:
                y = x
        self.x, self.y = self._conv(x), self._conv(y)

    def getX(self):
        return self.x

    def getY(self):
        return self.y

    def __getitem__(self, i):
        return (self.x, self.y)[i]

    def __iter__(self):
        return iter((self.x, self.y))

    def __eq__(self, o):
        return type(self) is type(o) and (self.x, self.y) == (o.x, o.y)

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return "%s(%r, %r)" % (type(self).__name__, self.x, self.y)


class _I(object):
    @staticmethod
    def _conv(v):
        if isinstance(v, (float, np.floating)):
            return int(math.floor(v + 0.5))
        return int(v)


class _D(object):
    @staticmethod
    def _conv(v):
        return float(v)


class _Point(_Pair):
    def __sub__(self, o):
        if isinstance(o, _Point):
            return self.Ext(self.x - o.x, self.y - o.y)
        return type(self)(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return type(self)(self.x + o.x, self.y + o.y)


class Extent2I(_I, _Pair):
    def __add__(self, o):
        return type(self)(self.x + o.x, self.y + o.y)


class Extent2D(_D, _Pair):
    def __add__(self, o):
        return type(self)(self.x + o.x, self.y + o.y)


class Point2I(_I, _Point):
    Ext = Extent2I


class Point2D(_D, _Point):
    Ext = Extent2D


Point2I.__hash__ = Point2D.__hash__ = _Pair.__hash__
PointI, PointD, ExtentI, ExtentD = Point2I, Point2D, Extent2I, Extent2D


class Box2I(object):
    """closed integer box [min, max]; empty if a dimension is not positive"""

    def __init__(self, corner=None, other=None):
        if corner is None:
            self.x0 = self.y0 = 0
            self.w = self.h = 0
        elif isinstance(corner, Box2I):
            self.x0, self.y0, self.w, self.h = corner.x0, corner.y0, corner.w, corner.h
        elif isinstance(other, Extent2I):
            self.x0, self.y0, self.w, self.h = corner.x, corner.y, other.x, other.y
        else:
            self.x0, self.y0 = corner.x, corner.y
            self.w, self.h = other.x - corner.x + 1, other.y - corner.y + 1
        self._norm()

    def _norm(self):
        if self.w <= 0 or self.h <= 0:
            self.x0 = self.y0 = self.w = self.h = 0

    def isEmpty(self):
        return self.w == 0

    def getMin(self):
        return Point2I(self.x0, self.y0)

    def getMax(self):
        return Point2I(self.x0 + self.w - 1, self.y0 + self.h - 1)

    def getMinX(self):
        return self.x0

    def getMinY(self):
        return self.y0

    def getMaxX(self):
        return self.x0 + self.w - 1

    def getMaxY(self):
        return self.y0 + self.h - 1

    getBeginX, getBeginY = getMinX, getMinY

    def getEndX(self):
        return self.x0 + self.w

    def getEndY(self):
        return self.y0 + self.h

    def getWidth(self):
        return self.w

    def getHeight(self):
        return self.h

    def getDimensions(self):
        return Extent2I(self.w, self.h)

    def getArea(self):
        return self.w * self.h

    def getCenter(self):
        return Point2D(self.x0 + (self.w - 1) / 2, self.y0 + (self.h - 1) / 2)

    beginX = property(getMinX)
    beginY = property(getMinY)
    endX = property(getEndX)
    endY = property(getEndY)
    minX = property(getMinX)
    minY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    width = property(getWidth)
    height = property(getHeight)

    def contains(self, o):
        if isinstance(o, Box2I):
            if o.isEmpty():
                return True
            return (self.x0 <= o.x0 and self.y0 <= o.y0 and self.getEndX() >= o.getEndX()
                    and self.getEndY() >= o.getEndY())
        return self.x0 <= o.x < self.getEndX() and self.y0 <= o.y < self.getEndY()

    def overlaps(self, o):
        b = Box2I(self)
        b.clip(o)
        return not b.isEmpty()

    def grow(self, n):
        if self.isEmpty():
            return
        dx, dy = (n.x, n.y) if hasattr(n, "x") else (int(n), int(n))
        self.x0 -= dx
        self.y0 -= dy
        self.w += 2 * dx
        self.h += 2 * dy
        self._norm()

    def clip(self, o):
        x0, y0 = max(self.x0, o.x0), max(self.y0, o.y0)
        x1, y1 = min(self.getEndX(), o.getEndX()), min(self.getEndY(), o.getEndY())
        self.x0, self.y0, self.w, self.h = x0, y0, x1 - x0, y1 - y0
        self._norm()

    def __eq__(self, o):
        return isinstance(o, Box2I) and (self.x0, self.y0, self.w, self.h) == (o.x0, o.y0, o.w, o.h)

    __hash__ = None

    def __repr__(self):
        return "Box2I(min=(%d, %d), dims=(%d, %d))" % (self.x0, self.y0, self.w, self.h)


BoxI = Box2I


class AngleUnit(object):
    def __init__(self, deg):
        self.deg = deg

    def __rmul__(self, v):
        return Angle(v, self)


degrees = AngleUnit(1.0)
arcseconds = AngleUnit(1.0 / 3600)
radians = AngleUnit(180 / math.pi)


class Angle(object):
    def __init__(self, value, unit=radians):
        self.deg = float(value) * unit.deg

    def asDegrees(self):
        return self.deg

    def asRadians(self):
        return self.deg * math.pi / 180

    def asArcseconds(self):
        return self.deg * 3600


class SpherePoint(object):
    def __init__(self, ra, dec, units=None):
        if units is not None:
            ra, dec = Angle(ra, units), Angle(dec, units)
        self.ra, self.dec = ra, dec

    def getRa(self):
        return self.ra

    def getDec(self):
        return self.dec

    getLongitude, getLatitude = getRa, getDec


class LinearTransform(object):
    def __init__(self, m):
        self.m = np.array(m, dtype="f8")

    def getMatrix(self):
        return self.m.copy()


class AffineTransform(object):
    def __init__(self, m, v=(0, 0)):
        self.m, self.v = np.array(m, dtype="f8"), v

    def getLinear(self):
        return LinearTransform(self.m)
