"""detection, background subtraction, kernel PSFs"""
import numpy as np
from lsst.pex.config import Config, Field, ListField, ConfigField, RangeField
from lsst.pipe.base import Task, Struct
from ngmix import env


class KernelPsf(object):
    """constant PSF; kernel images are normalised"""

    def __init__(self, kernel):
        self.kernel = kernel

    def computeKernelImage(self, pos=None):
        from lsst.afw.image import ImageD
        a = np.array(self.kernel.image.array, dtype="f8")
        s = a.sum()
        return ImageD(a / s if s != 0 else a)

    computeImage = computeKernelImage

    def clone(self):
        return KernelPsf(self.kernel)


class BackgroundConfig(Config):
    binSize = Field[int](default=128)
    approxOrderX = Field[int](default=6)


class SourceDetectionConfig(Config):
    """the library promises no stable defaults: few here are what users want"""
    minPixels = Field[int](default=7)
    isotropicGrow = Field[bool](default=False)
    combinedGrow = Field[bool](default=False)
    nSigmaToGrow = Field[float](default=9.5)
    returnOriginalFootprints = Field[bool](default=True)
    thresholdValue = Field[float](default=5.0)
    includeThresholdMultiplier = Field[float](default=3.0)
    thresholdType = Field[str](default="pixel_stdev")
    thresholdPolarity = Field[str](default="both")
    adjustBackground = Field[float](default=0.5)
    reEstimateBackground = Field[bool](default=True)
    background = ConfigField[BackgroundConfig]()
    tempLocalBackground = ConfigField[BackgroundConfig]()
    doTempLocalBackground = Field[bool](default=True)
    tempWideBackground = ConfigField[BackgroundConfig]()
    doTempWideBackground = Field[bool](default=False)
    nPeaksMaxSimple = Field[int](default=4)
    nSigmaForKernel = Field[float](default=3.0)
    statsMask = ListField[str](default=["BAD", "SAT", "EDGE", "NO_DATA"])
    excludeMaskPlanes = ListField[str](default=[])
    doApplyFlatBackgroundRatio = Field[bool](default=True)


class SourceDetectionTask(Task):
    ConfigClass = SourceDetectionConfig
    _DefaultName = "sourceDetection"

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def run(self, table, exposure, doSmooth=True, sigma=None, clearMask=True, expId=None, **kw):
        from lsst.afw.table import SourceCatalog
        env.log("lsst_detect", threshold=self.config.thresholdValue, config=self.config.toDict())
        h = env.hook("lsst_detect")
        if h is not None:
            return h(self, table, exposure)
        return Struct(sources=SourceCatalog(table))


class SubtractBackgroundConfig(Config):
    ignoredPixelMask = ListField[str](default=["BAD", "EDGE", "DETECTED", "DETECTED_NEGATIVE", "NO_DATA"])
    binSize = Field[int](default=128)
    useApprox = Field[bool](default=True)


class SubtractBackgroundTask(Task):
    ConfigClass = SubtractBackgroundConfig
    _DefaultName = "subtractBackground"

    def run(self, exposure, background=None, stats=True, statsKeys=None, **kw):
        h = env.hook("lsst_background")
        if h is not None:
            return h(self, exposure)
        from lsst.afw.image import Mask
        bits = Mask.getPlaneBitMask(list(self.config.ignoredPixelMask))
        use = (exposure.mask.array & bits) == 0
        if not use.any():
            from lsst.pex.exceptions import RuntimeError as LRE
            raise LRE("no usable pixels")
        mean = float(np.mean(exposure.image.array[use]))
        exposure.image.array[:, :] -= mean
        exposure.getMetadata()["BGMEAN"] = mean
        exposure.getMetadata()["BGVAR"] = 0.0
        return Struct(background=mean)
