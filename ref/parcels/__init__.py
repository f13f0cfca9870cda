from ._version import version
__version__ = version

from parcels.fieldset import *  # noqa
from parcels.particle import *  # noqa
from parcels.particlesets import *  # noqa
from parcels.field import *  # noqa
from parcels.kernel import *  # noqa
import parcels.rng as ParcelsRandom  # noqa
from parcels.particlefile import *  # noqa
from parcels.compilation import *  # noqa
from parcels.kernels import *  # noqa
from parcels.scripts import *  # noqa
from parcels.gridset import *  # noqa
from parcels.grid import *  # noqa
from parcels.tools import *  # noqa
