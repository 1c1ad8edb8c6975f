class _P(object):
    def __init__(self, *a, rng=None, **kw):
        self.args, self.kw, self.rng = a, kw, rng


class GPriorBA(_P):
    def __init__(self, sigma=0.3, A=1.0, rng=None):
        super().__init__(sigma, rng=rng)
        self.sigma = sigma

    def sample2d(self, nrand=None):
        import numpy as np
        rng = self.rng if self.rng is not None else np.random
        g = rng.normal(scale=self.sigma, size=(2, nrand or 1)).clip(-0.6, 0.6)
        if nrand is None:
            return float(g[0, 0]), float(g[1, 0])
        return g[0], g[1]


class CenPrior(_P):
    pass


class TwoSidedErf(_P):
    pass


class FlatPrior(_P):
    pass


class Normal(_P):
    pass


class LogNormal(_P):
    pass
