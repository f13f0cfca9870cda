from .codegenerator import *  # noqa
from .codecompiler import *  # noqa
