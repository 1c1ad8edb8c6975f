import numpy as np
from .. import env
from .defaults import METACAL_MINIMAL_TYPES, METACAL_TYPES, DEFAULT_STEP


def get_all_metacal(obs, psf="gauss", step=DEFAULT_STEP, fixnoise=True,
                    rng=None, use_noise_image=False, types=None, **kw):
    if types is None:
        types = METACAL_MINIMAL_TYPES
    for t in types:
        if t not in METACAL_TYPES:
            raise ValueError("bad metacal type: '%s'" % t)
    h = env.hook("metacal")
    if h is not None:
        return h(obs, rng=rng, psf=psf, step=step, fixnoise=fixnoise,
                 use_noise_image=use_noise_image, types=list(types), **kw)
    out = {t: obs.copy() for t in types}
    if env.hook("noise") is not None:
        for i, t in enumerate(types):
            for ol in out[t]:
                for o in ol:
                    o.set_image(o.image * (1 + 0.01 * i + 1.0e-3 * env.noise(rng)))
    return out


def _get_gauss_target_psf(psf, flux):
    """round gaussian a bit larger than the psf"""
    import galsim
    h = env.hook("gauss_target_psf")
    if h is not None:
        return h(psf, flux)
    return galsim.Gaussian(fwhm=1.0, flux=flux)


def _get_ellip_dilation(e1, e2, T):
    irr, irc, icc = T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)
    eigs = np.linalg.eigvals(np.array([[irr, irc], [irc, icc]]))
    return eigs.max() / (T / 2.0)
