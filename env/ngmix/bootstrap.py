from .gexceptions import BootPSFFailure
from .observation import Observation, ObsList, MultiBandObsList


def remove_failed_psf_obs(obs):
    if isinstance(obs, MultiBandObsList):
        new = MultiBandObsList(meta=obs.meta)
        for ol in obs:
            try:
                new.append(remove_failed_psf_obs(ol))
            except BootPSFFailure:
                pass
        if len(new) == 0:
            raise BootPSFFailure("no good psf fits")
        return new
    if isinstance(obs, ObsList):
        new = ObsList(meta=obs.meta)
        for o in obs:
            if o.psf.meta["result"]["flags"] == 0:
                new.append(o)
        if len(new) == 0:
            raise BootPSFFailure("no good psf fits")
        return new
    if obs.psf.meta["result"]["flags"] != 0:
        raise BootPSFFailure("no good psf fits")
    return obs


def bootstrap(obs, runner, psf_runner=None, ignore_failed_psf=True):
    if psf_runner is not None:
        psf_runner.go(obs=obs)
        if ignore_failed_psf:
            obs = remove_failed_psf_obs(obs)
    return runner.go(obs=obs)


class Bootstrapper(object):
    def __init__(self, runner, psf_runner, ignore_failed_psf=True):
        self.a = (runner, psf_runner, ignore_failed_psf)

    def go(self, obs):
        return bootstrap(obs, *self.a)
