"""Stand-in for esheldon's `meds` (the PyPI package of that name installed in
the sandbox is an unrelated project)."""
from . import util  # noqa
from .meds import MEDS  # noqa
