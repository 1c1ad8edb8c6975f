from lsst.pex.config import Config, Field
from lsst.pipe.base import Task
from ngmix import env


class SourceDeblendConfig(Config):
    maxFootprintArea = Field[int](default=1000000)
    maxNumberOfPeaks = Field[int](default=0)


class SourceDeblendTask(Task):
    ConfigClass = SourceDeblendConfig
    _DefaultName = "sourceDeblend"

    def __init__(self, schema=None, peakSchema=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def run(self, exposure, sources):
        env.log("lsst_deblend", which="sdss", n=len(sources))
        h = env.hook("lsst_deblend")
        if h is not None:
            h(self, exposure, sources)
