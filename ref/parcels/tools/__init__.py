from .converters import *  # noqa
from .global_statics import *  # noqa
from .statuscodes import *  # noqa
from .interpolation_utils import *  # noqa
from .loggers import *  # noqa
from .timer import *  # noqa
