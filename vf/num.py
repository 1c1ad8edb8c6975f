"""Projection of implementation values to the integers the specification uses."""
import numpy as np

NAN, INF, NINF, LIMIT = 2000000001, 2000000002, 2000000003, 1000000000


def fx(v, scale=1):
    """one number as a fixed-point integer"""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return NAN
    if v != v:
        return NAN
    if v == float("inf"):
        return INF
    if v == float("-inf"):
        return NINF
    x = v * scale
    if x > LIMIT:
        return LIMIT
    if x < -LIMIT:
        return -LIMIT
    return int(round(x))


def fxs(a, scale=1):
    """any array-like as a flat list of fixed-point integers"""
    return [fx(v, scale) for v in np.asarray(a).ravel()]


def grid(a, scale=1):
    """2-d array as list of rows"""
    a = np.asarray(a)
    return [[fx(v, scale) for v in row] for row in a]


def same(a, b):
    """bitwise equality of two arrays (nan equal)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))


def igrid(a):
    """2-d array of bit values as list of rows"""
    return [[int(v) for v in row] for row in np.asarray(a)]
