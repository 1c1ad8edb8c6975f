"""Stand-in for ngmix (not installable in this sandbox).

This package is the *environment model* of the verification: it implements the
part of ngmix' public interface that metadetect relies on.  Data containers
(observations, jacobians, moments bookkeeping, flags) follow the semantics of
ngmix 2.x; the numerical fitters can be scripted by a harness so that every
outcome (success, each failure flag, each exception) can be produced on demand.
"""
__version__ = "2.3.2"

from . import flags  # noqa
from . import gexceptions  # noqa
from .gexceptions import *  # noqa
from . import shape  # noqa
from .shape import Shape  # noqa
from . import moments  # noqa
from . import jacobian  # noqa
from .jacobian import Jacobian, DiagonalJacobian, UnitJacobian  # noqa
from . import observation  # noqa
from .observation import Observation, ObsList, MultiBandObsList, KObservation, get_mb_obs  # noqa
from . import gmix  # noqa
from .gmix import GMix, GMixModel, GMixCM  # noqa
from . import gaussmom  # noqa
from . import prepsfmom  # noqa
from . import ksigmamom  # noqa
from . import admom  # noqa
from . import priors  # noqa
from . import joint_prior  # noqa
from . import guessers  # noqa
from . import fitting  # noqa
from . import runners  # noqa
from . import bootstrap  # noqa
from . import metacal  # noqa
from . import medsreaders  # noqa
from . import simobs  # noqa
from . import env  # noqa
