"""images, masks, exposures, and their multi-band containers"""
import copy as _copy
import numpy as np
from lsst.geom import Box2I, Point2I, Extent2I
from lsst.pex.exceptions import LengthError, InvalidParameterError


class FilterLabel(object):
    def __init__(self, band=None, physical=None):
        self.bandLabel, self.physicalLabel = band, physical

    @staticmethod
    def fromBand(band):
        return FilterLabel(band)

    def __eq__(self, o):
        return isinstance(o, FilterLabel) and self.bandLabel == o.bandLabel

    __hash__ = None


class _Plane(object):
    """a 2-d array with an origin in the parent frame; slices are views"""
    DT = None

    def __init__(self, a=None, h=None, deep=False, array=None, xy0=None, dtype=None, **kw):
        dt = np.dtype(dtype) if dtype is not None else (self.DT and np.dtype(self.DT))
        if array is not None:
            a = array
        self.xy0 = xy0 or Point2I(0, 0)
        if isinstance(a, _Plane):
            self.xy0 = Point2I(a.xy0)
            if isinstance(h, Box2I):
                a = a[h]
                self.xy0 = Point2I(a.xy0)
            self.array = a.array.astype(dt or a.array.dtype) if deep else a.array
        elif isinstance(a, Box2I):
            self.xy0 = a.getMin()
            self.array = np.zeros((a.getHeight(), a.getWidth()), dtype=dt)
        elif isinstance(a, Extent2I):
            self.array = np.zeros((a.y, a.x), dtype=dt)
        elif isinstance(a, np.ndarray):
            if dt is not None and a.dtype != dt:
                if self.DT is not None and array is None and not np.can_cast(a.dtype, dt):
                    raise TypeError("incompatible constructor arguments: %s" % a.dtype)
                a = a.astype(dt)
            self.array = a
        else:
            self.array = np.zeros((int(h), int(a)), dtype=dt)

    dtype = property(lambda self: self.array.dtype)

    def getBBox(self, origin=None):
        h, w = self.array.shape
        return Box2I(self.xy0, Extent2I(w, h))

    def getXY0(self):
        return self.xy0

    def setXY0(self, p):
        self.xy0 = p

    def getWidth(self):
        return self.array.shape[1]

    def getHeight(self):
        return self.array.shape[0]

    def getArray(self):
        return self.array

    def clone(self):
        return type(self)(self, deep=True)

    def subset(self, bbox):
        return self[bbox]

    def _ix(self, p):
        r, c = p.y - self.xy0.y, p.x - self.xy0.x
        if not (0 <= r < self.array.shape[0] and 0 <= c < self.array.shape[1]):
            raise IndexError("%r outside %r" % (p, self.getBBox()))
        return r, c

    def __getitem__(self, b):
        if isinstance(b, Box2I):
            if not self.getBBox().contains(b):
                raise LengthError("%r does not fit in %r" % (b, self.getBBox()))
            new = type(self).__new__(type(self))
            r, c = b.y0 - self.xy0.y, b.x0 - self.xy0.x
            new.xy0 = b.getMin()
            new.array = self.array[r:r + b.h, c:c + b.w]
            return new
        if hasattr(b, "x"):
            return self.array[self._ix(b)].item()
        return self.array[b]

    def __setitem__(self, b, v):
        if hasattr(b, "x"):
            self.array[self._ix(b)] = v
        else:
            self.array[b] = v


class Image(_Plane):
    pass


class ImageF(Image):
    DT = "f4"


class ImageD(Image):
    DT = "f8"


class ImageI(Image):
    DT = "i4"


class Mask(_Plane):
    DT = "i4"
    _planes = {n: i for i, n in enumerate(
        ["BAD", "SAT", "INTRP", "CR", "EDGE", "DETECTED", "DETECTED_NEGATIVE", "SUSPECT", "NO_DATA"])}

    @classmethod
    def addMaskPlane(cls, name):
        if name not in Mask._planes:
            Mask._planes[name] = max(Mask._planes.values()) + 1
        return Mask._planes[name]

    @classmethod
    def getPlaneBitMask(cls, names):
        if isinstance(names, str):
            names = [names]
        v = 0
        for n in names:
            if n not in Mask._planes:
                raise InvalidParameterError("Invalid mask plane name: %s" % n)
            v |= 1 << Mask._planes[n]
        return v

    @classmethod
    def getMaskPlaneDict(cls):
        return dict(Mask._planes)


MaskX = Mask


def _image_class(dtype):
    return {"f4": ImageF, "f8": ImageD, "i4": ImageI}[np.dtype(dtype).str[1:]]


class MaskedImage(object):
    DT = None

    def __init__(self, image=None, mask=None, variance=None, deep=False, dtype=None, **kw):
        if isinstance(image, MaskedImage):
            if isinstance(mask, Box2I):
                image, mask = image[mask], None
            self.image, self.mask, self.variance = (
                (x.clone() if deep else x) for x in (image.image, image.mask, image.variance))
            return
        dt = dtype or self.DT or (image.dtype if isinstance(image, _Plane) else "f4")
        if isinstance(image, _Plane):
            if self.DT is not None and image.dtype != np.dtype(self.DT):
                raise TypeError("incompatible constructor arguments")
            self.image = image
        else:
            self.image = _image_class(dt)(image, mask)
            mask = None
        b = self.image.getBBox()
        self.mask = mask if mask is not None else Mask(b)
        self.variance = variance if variance is not None else ImageF(b)

    dtype = property(lambda self: self.image.dtype)

    def getImage(self):
        return self.image

    def getMask(self):
        return self.mask

    def getVariance(self):
        return self.variance

    def getBBox(self, origin=None):
        return self.image.getBBox()

    def getXY0(self):
        return self.image.getXY0()

    def clone(self):
        return type(self)(self, deep=True)

    def __getitem__(self, b):
        new = type(self).__new__(type(self))
        new.image, new.mask, new.variance = self.image[b], self.mask[b], self.variance[b]
        return new


class MaskedImageF(MaskedImage):
    DT = "f4"


class MaskedImageD(MaskedImage):
    DT = "f8"


class Exposure(object):
    DT = "f4"

    def __init__(self, a=None, b=None, deep=False, dtype=None, width=None, height=None, **kw):
        dt = dtype or self.DT
        self._psf = self._wcs = self._filter = None
        self._meta = {}
        self._detector = None
        if width is not None:
            a, b = width, height
        if isinstance(a, Exposure):
            mi = a.maskedImage
            if isinstance(b, Box2I):
                mi = mi[b]
            if mi.image.dtype != np.dtype(dt) and not deep:
                raise TypeError("conversion needs a deep copy")
            new = MaskedImage.__new__(MaskedImageF if np.dtype(dt) == np.dtype("f4") else MaskedImageD)
            if deep:
                new.image = _image_class(dt)(mi.image, deep=True)
                new.mask, new.variance = mi.mask.clone(), mi.variance.clone()
            else:
                new.image, new.mask, new.variance = mi.image, mi.mask, mi.variance
            self.maskedImage = new
            self._psf, self._wcs, self._filter = a._psf, a._wcs, a._filter
            self._detector = a._detector
            self._meta = _copy.deepcopy(a._meta) if deep else a._meta
        elif isinstance(a, MaskedImage):
            self.maskedImage = a
        else:
            self.maskedImage = (MaskedImageF if np.dtype(dt) == np.dtype("f4") else MaskedImageD)(a, b)

    image = property(lambda self: self.maskedImage.image)
    mask = property(lambda self: self.maskedImage.mask)
    variance = property(lambda self: self.maskedImage.variance)

    def getImage(self):
        return self.image

    def getMask(self):
        return self.mask

    def getVariance(self):
        return self.variance

    def getMaskedImage(self):
        return self.maskedImage

    def getBBox(self, origin=None):
        return self.image.getBBox()

    def getXY0(self):
        return self.image.getXY0()

    def getWidth(self):
        return self.image.getWidth()

    def getHeight(self):
        return self.image.getHeight()

    def getPsf(self):
        return self._psf

    def setPsf(self, psf):
        self._psf = psf

    def getWcs(self):
        return self._wcs

    def setWcs(self, wcs):
        self._wcs = wcs

    def getFilter(self):
        return self._filter

    def setFilter(self, f):
        self._filter = f

    psf = property(getPsf)
    wcs = property(getWcs)
    filter = property(getFilter)

    def getDetector(self):
        return self._detector

    def setDetector(self, d):
        self._detector = d

    def getMetadata(self):
        return self._meta

    metadata = property(getMetadata)

    def __getitem__(self, bbox):
        new = type(self).__new__(type(self))
        new.maskedImage = self.maskedImage[bbox]
        new._psf, new._wcs, new._filter = self._psf, self._wcs, self._filter
        new._meta, new._detector = self._meta, self._detector
        return new

    def clone(self):
        return type(self)(self, deep=True)

    def __deepcopy__(self, memo):
        new = self.clone()
        new._psf = None
        return new


class ExposureF(Exposure):
    DT = "f4"


class ExposureD(Exposure):
    DT = "f8"


class _Multi(object):
    """array[band, row, column] and single-band views of it"""

    def __init__(self, bands, array, bbox=None, plane=None):
        self.bands = tuple(bands)
        self.array = np.asarray(array)
        if bbox is None:
            bbox = Box2I(Point2I(0, 0), Extent2I(self.array.shape[2], self.array.shape[1]))
        self.bbox = bbox
        cls = plane or _image_class(self.array.dtype)
        self.singles = []
        for i in range(len(self.bands)):
            s = cls.__new__(cls)
            s.array, s.xy0 = self.array[i], bbox.getMin()
            self.singles.append(s)

    @classmethod
    def fromImages(cls, bands, singles):
        return cls(bands, np.array([s.array for s in singles]), singles[0].getBBox())

    def getBBox(self, origin=None):
        return self.bbox

    def __len__(self):
        return len(self.bands)

    def __iter__(self):
        return iter(self.singles)

    def __getitem__(self, band):
        return self.singles[self.bands.index(band)]


class MultibandImage(_Multi):
    pass


class MultibandMask(_Multi):
    def __init__(self, bands, array, bbox=None):
        super().__init__(bands, array, bbox, plane=Mask)


class MultibandExposure(object):
    """the pixels of several exposures in one block (a copy of theirs)"""

    def __init__(self, bands, image, mask, variance, psfs=None):
        self.bands = tuple(bands)
        self.image, self.mask, self.variance = image, mask, variance
        self.singles = []
        for i in range(len(self.bands)):
            im = image.singles[i]
            mi = MaskedImage.__new__(MaskedImageF if im.dtype == np.dtype("f4") else MaskedImageD)
            mi.image, mi.mask, mi.variance = im, mask.singles[i], variance.singles[i]
            e = (ExposureF if im.dtype == np.dtype("f4") else ExposureD)(mi)
            if psfs is not None:
                e.setPsf(psfs[i])
            self.singles.append(e)

    @staticmethod
    def fromExposures(bands, singles):
        return MultibandExposure(
            bands, MultibandImage.fromImages(bands, [e.image for e in singles]),
            MultibandMask.fromImages(bands, [e.mask for e in singles]),
            MultibandImage.fromImages(bands, [e.variance for e in singles]),
            [e.getPsf() for e in singles])

    def clone(self, deep=True):
        def c(m):
            return type(m)(m.bands, m.array.copy() if deep else m.array, m.bbox)
        return MultibandExposure(self.bands, c(self.image), c(self.mask), c(self.variance))

    def getBBox(self, origin=None):
        return self.image.getBBox()

    def getXY0(self):
        return self.getBBox().getMin()

    def __len__(self):
        return len(self.bands)

    def __iter__(self):
        return iter(self.singles)

    def __getitem__(self, band):
        if isinstance(band, tuple):
            raise IndexError("slices are not modelled")
        if band not in self.bands:
            raise IndexError("no band %r" % (band,))
        return self.singles[self.bands.index(band)]
