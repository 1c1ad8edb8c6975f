from . import defaults  # noqa
from .defaults import (  # noqa
    METACAL_MINIMAL_TYPES, METACAL_TYPES, DEFAULT_STEP,
)
from . import metacal  # noqa
from .metacal import get_all_metacal  # noqa
