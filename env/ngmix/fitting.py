import numpy as np
from . import env
from .gmix import GMixModel
from .observation import get_mb_obs


class FitModelResult(dict):
    def get_gmix(self, band=None):
        return GMixModel([0, 0, 0, 0, 1.0, 1.0], "gauss")


def default_result(obs):
    """natural answer: sums of pixel values"""
    mb = get_mb_obs(obs)
    flux = np.array([ol[0].image.sum() for ol in mb])
    n = len(mb)
    return {
        "flags": 0, "flagstr": "", "s2n": 10.0, "T": 1.0, "T_err": 0.5,
        "g": np.array([0.0, 0.0]), "g_cov": np.eye(2), "nband": n,
        "flux": flux if n > 1 else flux[0],
        "flux_err": np.ones(n) if n > 1 else 1.0,
    }


class Fitter(object):
    kind = "gauss"

    def __init__(self, model, prior=None, fit_pars=None):
        self.model, self.prior, self.fit_pars = model, prior, fit_pars

    def go(self, obs, guess=None):
        # one flux per band, and a prior for each
        if self.prior is not None and self.prior.nband != len(get_mb_obs(obs)):
            raise IndexError("prior for %d bands, data for %d" % (
                self.prior.nband, len(get_mb_obs(obs))))
        h = env.hook("gauss")
        res = h(self, obs) if h is not None else default_result(obs)
        if guess and res["flags"] == 0:
            res["T"] = res["T"] * (1 + 1.0e-3 * guess)
        return FitModelResult(res)
