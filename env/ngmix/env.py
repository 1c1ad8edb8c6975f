"""Control panel of the environment model.

``LOG`` is the ordered list of environment calls made by the code under test
(one entry per PSF fit, metacal run, detection run, object fit).  ``HOOKS`` lets
a harness script the answers; the defaults behave naturally.
"""
LOG = []
HOOKS = {}


def reset():
    del LOG[:]
    HOOKS.clear()


def log(event, **kw):
    kw["ev"] = event
    LOG.append(kw)


def hook(name):
    return HOOKS.get(name)


def noise(rng):
    """a draw from a generator (the process-wide one if there is none) where the
    real library makes one; zero unless a harness asks for draws"""
    h = HOOKS.get("noise")
    return 0.0 if h is None else h(rng)
