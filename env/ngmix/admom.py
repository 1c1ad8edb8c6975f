import numpy as np
from . import env
from .gmix import GMixModel


class AdmomResult(dict):
    def __init__(self, obs, result):
        super().__init__(result)
        self._obs = obs

    def get_gmix(self):
        g1, g2 = 0.0, 0.0
        return GMixModel([0, 0, g1, g2, max(self.get("T", 1.0), 1e-3), 1.0],
                         "gauss")


def default_result(obs):
    """natural answer: unweighted second moments of the image"""
    im = obs.image
    rows, cols = np.mgrid[0:im.shape[0], 0:im.shape[1]]
    v, u = obs.jacobian.get_vu(rows, cols)
    f = im.sum()
    if not f > 0:
        return {"flags": 2**2, "flagstr": "flux <= 0", "T_flags": 2**2,
                "flux_flags": 2**2}
    T = (im * (u**2 + v**2)).sum() / f
    e = np.array([(im * (u**2 - v**2)).sum(), (2 * im * u * v).sum()])
    e = e / f / T if T > 0 else np.array([0.0, 0.0])
    return {
        "flags": 0, "flagstr": "", "T_flags": 0, "flux_flags": 0,
        "T": T, "T_err": 1.0, "e": e, "e_cov": np.eye(2), "e_err": np.ones(2),
        "s2n": 10.0, "flux": f, "flux_err": 1.0,
        "sums": np.zeros(7), "sums_cov": np.eye(7), "sums_norm": 1.0,
    }


class AdmomFitter(object):
    kind = "am"

    def __init__(self, maxiter=200, shiftmax=5.0, etol=1.0e-5, Ttol=0.001,
                 rng=None, cenonly=False):
        self.rng = rng
        self.maxiter = maxiter

    def go(self, obs, guess=None):
        h = env.hook("admom")
        res = h(obs) if h is not None else default_result(obs)
        if guess and res["flags"] == 0:
            res["T"] = res["T"] * (1 + 1.0e-3 * guess)
        return AdmomResult(obs, res)


def run_admom(obs, guess=None, **kw):
    return AdmomFitter(**kw).go(obs, guess)
