from . import env
from .gmix import GMixModel
from .moments import fwhm_to_T
from .observation import Observation


class GaussMom(object):
    """post-PSF gaussian weighted moments"""
    kind = "wmom"

    def __init__(self, fwhm, with_higher_order=False):
        self.fwhm = fwhm
        self.weight = GMixModel([0, 0, 0, 0, fwhm_to_T(fwhm), 1.0], "gauss")

    def go(self, obs):
        if not isinstance(obs, Observation):
            raise ValueError("input obs must be an Observation")
        h = env.hook("mom")
        if h is not None:
            return h(self, obs, {})
        res = self.weight.get_weighted_moments(obs=obs, maxrad=1.0e9)
        return res
