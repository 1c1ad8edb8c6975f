class PriorSimpleSep(object):
    def __init__(self, cen_prior, g_prior, T_prior, F_prior):
        self.cen_prior, self.g_prior = cen_prior, g_prior
        self.T_prior = T_prior
        self.F_priors = (
            list(F_prior) if isinstance(F_prior, (list, tuple)) else [F_prior])
        self.nband = len(self.F_priors)

    def parts(self):
        return [self.cen_prior, self.g_prior, self.T_prior] + self.F_priors
