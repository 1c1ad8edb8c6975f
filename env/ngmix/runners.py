from .observation import Observation, ObsList, MultiBandObsList


def run_fitter(obs, fitter, guesser=None, ntry=1):
    res = None
    for _ in range(ntry):
        if guesser is not None:
            guess = guesser(obs=obs)
            res = fitter.go(obs=obs, guess=guess)
        else:
            res = fitter.go(obs=obs)
        if res["flags"] == 0:
            break
    return res


class RunnerBase(object):
    def __init__(self, fitter, guesser=None, ntry=1):
        self.fitter, self.guesser, self.ntry = fitter, guesser, ntry


class Runner(RunnerBase):
    def go(self, obs):
        return run_fitter(obs, self.fitter, self.guesser, self.ntry)


class PSFRunner(RunnerBase):
    def go(self, obs, set_result=True):
        if isinstance(obs, MultiBandObsList):
            return [self.go(ol, set_result=set_result) for ol in obs]
        if isinstance(obs, ObsList):
            return [self.go(o, set_result=set_result) for o in obs]
        if not isinstance(obs, Observation):
            raise ValueError("obs must be an Observation, ObsList or MultiBandObsList")
        tofit = obs.psf if obs.has_psf() else obs
        res = run_fitter(tofit, self.fitter, self.guesser, self.ntry)
        if set_result:
            tofit.meta["result"] = res
            if res["flags"] == 0 and hasattr(res, "get_gmix"):
                tofit.gmix = res.get_gmix()
        return res
