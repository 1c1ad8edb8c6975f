from meds import MEDS as _MEDS
from .jacobian import Jacobian
from .observation import Observation, ObsList, MultiBandObsList


class NGMixMEDS(_MEDS):
    """MEDS reader returning Observations"""

    def _try(self, iobj, icut, type):
        try:
            return self.get_cutout(iobj, icut, type=type)
        except Exception:
            return None

    def get_obslist(self, iobj, weight_type="weight"):
        ol = ObsList()
        for icut in range(self._cat["ncutout"][iobj]):
            ol.append(self.get_obs(iobj, icut, weight_type=weight_type))
        ol.meta["flags"] = 0
        return ol

    def get_obs(self, iobj, icutout, weight_type="weight"):
        im = self.get_cutout(iobj, icutout, type="image")
        jd = self.get_jacobian(iobj, icutout)
        if weight_type == "uberseg":
            wt = self.get_uberseg(iobj, icutout)
        elif weight_type == "weight":
            wt = self.get_cutout(iobj, icutout, type="weight")
        else:
            raise ValueError("bad weight type '%s'" % weight_type)
        jac = Jacobian(
            row=jd["row0"], col=jd["col0"], dudrow=jd["dudrow"],
            dudcol=jd["dudcol"], dvdrow=jd["dvdrow"], dvdcol=jd["dvdcol"])
        psf = None
        if self.has_psf():
            psf = self.get_psf_obs(iobj, icutout)
        c = self._cat
        return Observation(
            im, weight=wt, bmask=self._try(iobj, icutout, "bmask"),
            ormask=self._try(iobj, icutout, "ormask"),
            noise=self._try(iobj, icutout, "noise"),
            mfrac=self._try(iobj, icutout, "mfrac"),
            jacobian=jac, psf=psf,
            meta={
                "id": c["id"][iobj],
                "orig_row": c["orig_row"][iobj, icutout],
                "orig_col": c["orig_col"][iobj, icutout],
                "orig_start_row": c["orig_start_row"][iobj, icutout],
                "orig_start_col": c["orig_start_col"][iobj, icutout],
            })

    def get_psf_obs(self, iobj, icutout):
        im = self.get_psf(iobj, icutout)
        jd = self.get_jacobian(iobj, icutout)
        c = self._cat
        jac = Jacobian(
            row=c["psf_cutout_row"][iobj, icutout],
            col=c["psf_cutout_col"][iobj, icutout],
            dudrow=jd["dudrow"], dudcol=jd["dudcol"],
            dvdrow=jd["dvdrow"], dvdcol=jd["dvdcol"])
        noise = im.max() / 1000.0 if im.max() > 0 else 1.0
        return Observation(im, weight=im * 0 + 1.0 / noise**2, jacobian=jac)


class MultiBandNGMixMEDS(object):
    def __init__(self, mlist):
        self.mlist = mlist
        self._validate()

    def _validate(self):
        for m in self.mlist:
            assert m.size == self.mlist[0].size

    @property
    def size(self):
        return self.mlist[0].size

    @property
    def nband(self):
        return len(self.mlist)

    def get_mbobs_list(self, indices=None, weight_type="weight"):
        if indices is None:
            indices = range(self.size)
        return [self.get_mbobs(i, weight_type=weight_type) for i in indices]

    def get_mbobs(self, iobj, weight_type="weight"):
        mb = MultiBandObsList()
        for m in self.mlist:
            mb.append(m.get_obslist(iobj, weight_type=weight_type))
        return mb
