import numpy as np


class MEDS(object):
    """in-memory part of the MEDS interface"""

    @property
    def size(self):
        return self._cat.size

    @property
    def cat(self):
        return self._cat

    def get_cat(self):
        return self._cat

    def get_image_info(self):
        return self._image_info

    def __getitem__(self, item):
        return self._cat[item]

    def __len__(self):
        return self._cat.size

    def _check_indices(self, iobj, icutout=None):
        if iobj < 0 or iobj >= self._cat.size:
            raise ValueError("object index should be within [0,%s)" % self._cat.size)
        ncutout = self._cat["ncutout"][iobj]
        if ncutout == 0:
            raise ValueError("object %s has no cutouts" % iobj)
        if icutout is not None and (icutout < 0 or icutout >= ncutout):
            raise ValueError(
                "requested cutout index %s for object %s should be in bounds "
                "[0,%s)" % (icutout, iobj, ncutout))

    def has_psf(self):
        return False

    def get_jacobian(self, iobj, icutout):
        self._check_indices(iobj, icutout=icutout)
        c = self._cat
        jd = {"row0": c["cutout_row"][iobj, icutout],
              "col0": c["cutout_col"][iobj, icutout]}
        for n in ("dudrow", "dudcol", "dvdrow", "dvdcol"):
            jd[n] = c[n][iobj, icutout]
        return jd

    def get_jacobian_matrix(self, iobj, icutout):
        jd = self.get_jacobian(iobj, icutout)
        return np.array([[jd["dudrow"], jd["dudcol"]],
                         [jd["dvdrow"], jd["dvdcol"]]])

    def get_cutout_list(self, iobj, type="image"):
        return [self.get_cutout(iobj, i, type=type)
                for i in range(self._cat["ncutout"][iobj])]

    def get_uberseg(self, iobj, icutout, fast=True):
        """zero the weight of pixels closer to another object's segment"""
        weight = self.get_cutout(iobj, icutout, type="weight")
        seg = self.get_cutout(iobj, icutout, type="seg")
        number = self._cat["number"][iobj]
        rows, cols = np.where(seg != 0)
        if rows.size == 0 or np.all(seg[rows, cols] == number):
            return weight
        nums = seg[rows, cols]
        for r in range(weight.shape[0]):
            for c in range(weight.shape[1]):
                d2 = (rows - r)**2 + (cols - c)**2
                if nums[np.argmin(d2)] != number:
                    weight[r, c] = 0
        return weight
