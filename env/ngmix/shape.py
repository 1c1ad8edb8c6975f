import numpy as np
from .gexceptions import GMixRangeError


def e1e2_to_g1g2(e1, e2):
    """convert distortion e1, e2 to reduced shear g1, g2"""
    e = np.sqrt(np.asarray(e1, dtype="f8")**2 + np.asarray(e2, dtype="f8")**2)
    if np.isscalar(e1) or np.ndim(e1) == 0:
        if e >= 1.0:
            raise GMixRangeError("e out of range: %s" % e)
        if e == 0.0:
            return 0.0, 0.0
        g = np.tanh(0.5 * np.arctanh(e))
        fac = g / e
        return fac * e1, fac * e2
    if np.any(e >= 1.0):
        raise GMixRangeError("some e were out of bounds")
    fac = np.full_like(e, 0.5)
    w = e > 0
    fac[w] = np.tanh(0.5 * np.arctanh(e[w])) / e[w]
    return fac * e1, fac * e2


def g1g2_to_e1e2(g1, g2):
    g = np.sqrt(np.asarray(g1)**2 + np.asarray(g2)**2)
    if np.any(g >= 1.0):
        raise GMixRangeError("some g were out of bounds")
    fac = 2.0 / (1.0 + g**2)
    return fac * g1, fac * g2


class Shape(object):
    def __init__(self, g1, g2):
        self.g1 = g1
        self.g2 = g2
        self.g = np.sqrt(g1**2 + g2**2)
        if self.g >= 1.0:
            raise GMixRangeError("g out of range: %s" % self.g)

    def __neg__(self):
        return Shape(-self.g1, -self.g2)
