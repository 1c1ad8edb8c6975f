from . import env


class _G(object):
    def __init__(self, rng=None, **kw):
        self.rng = rng
        self.kw = kw

    def __call__(self, obs, **kw):
        return env.noise(self.rng)


class SimplePSFGuesser(_G):
    pass


class GMixPSFGuesser(_G):
    def __init__(self, rng=None, ngauss=1, guess_from_moms=False):
        super().__init__(rng=rng)
        self.ngauss = ngauss


class TPSFFluxGuesser(_G):
    def __init__(self, rng=None, T=None, prior=None):
        super().__init__(rng=rng)
        self.T, self.prior = T, prior

    def __call__(self, obs, **kw):
        # a guess the prior refuses is replaced by one drawn from it
        guess = super().__call__(obs)
        if self.prior is not None:
            for p in self.prior.parts():
                guess = guess + env.noise(p.rng)
        return guess


class TFluxGuesser(_G):
    pass
