"""Map geometry."""
from .common import *   # noqa
from .pyset import *   # noqa


def check(c):
    P = program(c, True)
    pyrule(c, P, 'geometry', 'map geometry and flips match the pixelisation',
           tagged(utils_items(), 'geometry', 'compat', 'dot', 'pinv'))
    pyrule(c, P, 'sht', 'spherical transforms use the ring geometry, spin and sign of the maps',
           tagged(utils_items(), 'sht'))
