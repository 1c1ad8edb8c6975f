from . import env
from .gmix import GMixModel
from .moments import fwhm_to_T
from .observation import Observation


class PrePSFMom(object):
    def __init__(self, fwhm, kernel=None, pad_factor=4, ap_rad=1.5,
                 fwhm_smooth=0):
        self.fwhm = fwhm
        self.kernel = kernel
        self.pad_factor = pad_factor
        self.ap_rad = ap_rad
        self.fwhm_smooth = fwhm_smooth
        self.kind = kernel

    def go(self, obs, return_kernels=False, no_psf=False):
        if not isinstance(obs, Observation):
            raise ValueError("input obs must be an Observation")
        h = env.hook("mom")
        if h is not None:
            return h(self, obs, {"no_psf": no_psf})
        if not no_psf and not obs.has_psf():
            raise RuntimeError("you need to pass a psf")
        wt = GMixModel([0, 0, 0, 0, fwhm_to_T(self.fwhm), 1.0], "gauss")
        return wt.get_weighted_moments(obs=obs, maxrad=1.0e9)


class KSigmaMom(PrePSFMom):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm, "ksigma", pad_factor=pad_factor, ap_rad=ap_rad,
                         fwhm_smooth=fwhm_smooth)


class PGaussMom(PrePSFMom):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm, "pgauss", pad_factor=pad_factor, ap_rad=ap_rad,
                         fwhm_smooth=fwhm_smooth)


PrePSFGaussMom = PGaussMom
