from .advection import *  # noqa
from .advectiondiffusion import *  # noqa
