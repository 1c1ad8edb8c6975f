"""measurement plugins and the noise replacer"""
import numpy as np
from lsst.pex.config import Config, Field, ConfigField
from lsst.pipe.base import Task
from lsst.afw.detection import makeHeavyFootprint
from ngmix import env


class _Plugin(object):
    binmax = 16


class _Plugins(object):
    def __init__(self):
        self.names = []
        self._p = {}

    def __getitem__(self, k):
        return self._p.setdefault(k, _Plugin())


class _Slots(object):
    apFlux = gaussianFlux = calibFlux = modelFlux = shape = psfFlux = "x"
    centroid = "base_SdssCentroid"


class SingleFrameMeasurementConfig(Config):
    doReplaceWithNoise = Field[bool](default=True)

    def __init__(self, **kw):
        object.__setattr__(self, "plugins", _Plugins())
        object.__setattr__(self, "slots", _Slots())
        super().__init__(**kw)

    def _copy(self):
        new = super()._copy()
        object.__setattr__(new, "plugins", self.plugins)
        object.__setattr__(new, "slots", self.slots)
        return new


class SingleFrameMeasurementTask(Task):
    ConfigClass = SingleFrameMeasurementConfig
    _DefaultName = "measurement"

    def __init__(self, schema=None, algMetadata=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def callMeasure(self, source, exposure, *args, **kw):
        h = env.hook("lsst_measure")
        if h is not None:
            return h(source, exposure)
        p = source.getFootprint().getPeaks()[0]
        from lsst.geom import Point2D
        source.setCentroid(Point2D(p.x, p.y))
        if exposure.getWcs() is not None:
            source.setCoord(exposure.getWcs().pixelToSky(source.getCentroid()))


class NoiseReplacerConfig(Config):
    noiseSource = Field[str](default="measure")
    noiseSeedMultiplier = Field[int](default=1)
    noiseOffset = Field[float](default=0.0)


class NoiseReplacer(object):
    """replaces every footprint by noise until told otherwise (documented
    behaviour of lsst.meas.base.NoiseReplacer)"""

    def __init__(self, config, exposure, footprints, noiseImage=None, exposureId=None, log=None):
        self.exposure, self.footprints = exposure, footprints
        mi = exposure.getMaskedImage()
        self.heavies, self.heavyNoise = {}, {}
        for k, (parent, fp) in footprints.items():
            self.heavies[k] = fp if fp.isHeavy() else makeHeavyFootprint(fp, mi)
        if noiseImage is None:
            rng = np.random.RandomState(config.noiseSeedMultiplier)
            noiseImage = mi.clone()
            noiseImage.image.array[:, :] = rng.normal(size=noiseImage.image.array.shape)
        for k, (parent, fp) in footprints.items():
            n = makeHeavyFootprint(fp, noiseImage)
            n.masks = n.variances = None
            self.heavyNoise[k] = n
        for k in footprints:
            self.heavyNoise[k].insert(mi)

    def insertSource(self, id):
        self.heavies[id].insert(self.exposure.getMaskedImage())

    def removeSource(self, id):
        self.heavyNoise[id].insert(self.exposure.getMaskedImage())

    def end(self):
        mi = self.exposure.getMaskedImage()
        for k, (parent, fp) in self.footprints.items():
            if parent == 0:
                self.heavies[k].insert(mi)
