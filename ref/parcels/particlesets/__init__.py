from .particlesetsoa import *  # noqa
