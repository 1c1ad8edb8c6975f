import copy
import numpy as np


class Jacobian(object):
    """local linear WCS: v = dvdrow*(row-row0)+dvdcol*(col-col0), same for u"""

    def __init__(self, **kw):
        if "x" in kw:
            self._c0 = float(kw["x"])
            self._r0 = float(kw["y"])
            self._dudcol = float(kw["dudx"])
            self._dudrow = float(kw["dudy"])
            self._dvdcol = float(kw["dvdx"])
            self._dvdrow = float(kw["dvdy"])
        elif "row" in kw:
            self._r0 = float(kw["row"])
            self._c0 = float(kw["col"])
            if "wcs" in kw:
                w = kw["wcs"]
                self._dudcol, self._dudrow = float(w.dudx), float(w.dudy)
                self._dvdcol, self._dvdrow = float(w.dvdx), float(w.dvdy)
            else:
                self._dudcol = float(kw["dudcol"])
                self._dudrow = float(kw["dudrow"])
                self._dvdcol = float(kw["dvdcol"])
                self._dvdrow = float(kw["dvdrow"])
        else:
            raise ValueError("send by row,col or x,y")
        self._fill()

    def _fill(self):
        self._det = self._dvdrow * self._dudcol - self._dvdcol * self._dudrow
        self._scale = np.sqrt(abs(self._det))

    # attributes as used downstream
    row0 = property(lambda s: s._r0)
    col0 = property(lambda s: s._c0)
    dvdrow = property(lambda s: s._dvdrow)
    dvdcol = property(lambda s: s._dvdcol)
    dudrow = property(lambda s: s._dudrow)
    dudcol = property(lambda s: s._dudcol)
    det = property(lambda s: s._det)
    scale = property(lambda s: s._scale)
    area = property(lambda s: s._scale**2)
    cen = property(lambda s: (s._r0, s._c0))

    def get_dudrow(self):
        return self._dudrow

    def get_dudcol(self):
        return self._dudcol

    def get_dvdrow(self):
        return self._dvdrow

    def get_dvdcol(self):
        return self._dvdcol

    def get_det(self):
        return self._det

    def get_scale(self):
        return self._scale

    def get_area(self):
        return self._scale**2

    def get_row0(self):
        return self._r0

    def get_col0(self):
        return self._c0

    def get_cen(self):
        return self._r0, self._c0

    def set_cen(self, **kw):
        if "x" in kw:
            self._c0, self._r0 = float(kw["x"]), float(kw["y"])
        else:
            self._r0, self._c0 = float(kw["row"]), float(kw["col"])

    def get_vu(self, row, col):
        dr = np.asarray(row, dtype="f8") - self._r0
        dc = np.asarray(col, dtype="f8") - self._c0
        v = self._dvdrow * dr + self._dvdcol * dc
        u = self._dudrow * dr + self._dudcol * dc
        if np.ndim(v) == 0:
            return float(v), float(u)
        return v, u

    def __call__(self, row, col):
        return self.get_vu(row, col)

    def get_rowcol(self, v, u):
        v = np.asarray(v, dtype="f8")
        u = np.asarray(u, dtype="f8")
        row = (self._dudcol * v - self._dvdcol * u) / self._det + self._r0
        col = (-self._dudrow * v + self._dvdrow * u) / self._det + self._c0
        if np.ndim(row) == 0:
            return float(row), float(col)
        return row, col

    def get_galsim_wcs(self):
        import galsim
        return galsim.JacobianWCS(
            dudx=self._dudcol, dudy=self._dudrow,
            dvdx=self._dvdcol, dvdy=self._dvdrow)

    def copy(self):
        return copy.copy(self)

    def __repr__(self):
        return (
            "row0: %-10.5g col0: %-10.5g dvdrow: %-10.5g dvdcol: %-10.5g "
            "dudrow: %-10.5g dudcol: %-10.5g" % (
                self._r0, self._c0, self._dvdrow, self._dvdcol,
                self._dudrow, self._dudcol))


class DiagonalJacobian(Jacobian):
    def __init__(self, scale=1.0, **kw):
        args = dict(dvdrow=scale, dvdcol=0.0, dudrow=0.0, dudcol=scale)
        if "x" in kw:
            super().__init__(row=kw["y"], col=kw["x"], **args)
        else:
            super().__init__(row=kw["row"], col=kw["col"], **args)


class UnitJacobian(DiagonalJacobian):
    def __init__(self, **kw):
        super().__init__(scale=1.0, **kw)
