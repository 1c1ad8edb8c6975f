import numpy as np
from .gexceptions import GMixRangeError
from .shape import g1g2_to_e1e2


class GMix(object):
    def __init__(self, ngauss=None, pars=None):
        self._pars = np.array(pars if pars is not None else [0, 0, 0, 0, 1, 1],
                              dtype="f8")

    def copy(self):
        new = self.__class__.__new__(self.__class__)
        new.__dict__.update(self.__dict__)
        new._pars = self._pars.copy()
        return new

    def get_full_pars(self):
        return self._pars.copy()


class GMixModel(GMix):
    """single gaussian only: pars [cen_v, cen_u, g1, g2, T, flux]"""

    def __init__(self, pars, model):
        if model not in ("gauss",):
            raise ValueError("stand-in only has 'gauss' (got %s)" % model)
        self._pars = np.array(pars, dtype="f8")
        if self._pars.size != 6:
            raise ValueError("expected 6 pars")
        self._model_name = model

    def get_T(self):
        return self._pars[4]

    def get_flux(self):
        return self._pars[5]

    def _eval(self, v, u):
        cv, cu, g1, g2, T, flux = self._pars
        e1, e2 = g1g2_to_e1e2(g1, g2)
        irr = T / 2 * (1 - e1)
        irc = T / 2 * e2
        icc = T / 2 * (1 + e1)
        det = irr * icc - irc**2
        if det <= 0:
            raise GMixRangeError("det <= 0")
        vm, um = v - cv, u - cu
        chi2 = (icc * vm**2 + irr * um**2 - 2 * irc * vm * um) / det
        return flux * np.exp(-0.5 * chi2) / (2 * np.pi * np.sqrt(det))

    def get_weighted_sums(self, obs, maxrad, res=None):
        pix = obs.pixels
        cv, cu = self._pars[0], self._pars[1]
        v, u = pix["v"] - cv, pix["u"] - cu
        rsq = u**2 + v**2
        use = rsq < maxrad**2
        p, v, u, rsq = pix[use], v[use], u[use], rsq[use]
        w = self._eval(p["v"], p["u"])
        with np.errstate(divide="ignore"):
            var = np.where(p["ierr"] > 0, 1.0 / p["ierr"]**2, 0.0)
        F = np.array([v, u, u**2 - v**2, 2 * v * u, rsq, np.ones_like(v)])
        sums = (F * (w * p["val"])).sum(axis=1)
        cov = (F * (w**2 * var)) @ F.T
        return {
            "flags": 0, "flagstr": "", "npix": int(use.sum()),
            "wsum": w.sum(), "sums": sums, "sums_cov": cov,
            "pars": sums.copy(),
        }

    def get_weighted_moments(self, obs, maxrad):
        from .moments import make_mom_result
        r = self.get_weighted_sums(obs, maxrad)
        m = make_mom_result(r["sums"], r["sums_cov"], sums_norm=r["wsum"])
        m["npix"], m["wsum"] = r["npix"], r["wsum"]
        return m


class GMixCM(GMix):
    pass
