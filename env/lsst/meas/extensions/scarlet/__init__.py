from lsst.pex.config import Config, Field
from lsst.pipe.base import Task, Struct
from ngmix import env


class ScarletDeblendConfig(Config):
    maxFootprintArea = Field[int](default=100000)
    processSingles = Field[bool](default=False)


class ScarletDeblendTask(Task):
    ConfigClass = ScarletDeblendConfig
    _DefaultName = "scarletDeblend"

    def __init__(self, schema=None, peakSchema=None, **kw):
        super().__init__(**kw)
        self.schema = self.objectSchema = schema

    def run(self, mExposure, mDeconvolved, mergedSources):
        env.log("lsst_deblend", which="scarlet", n=len(mergedSources))
        return env.hook("lsst_scarlet")(self, mExposure, mDeconvolved, mergedSources)


class DeconvolveExposureConfig(Config):
    pass


class DeconvolveExposureTask(Task):
    ConfigClass = DeconvolveExposureConfig
    _DefaultName = "deconvolve"

    def run(self, coadd, catalog, band=None):
        env.log("lsst_deconvolve", band=band, catalog=catalog, exposure=coadd)
        h = env.hook("lsst_deconvolve")
        if h is not None:
            return h(coadd, catalog, band)
        return Struct(deconvolved=coadd.clone())
