"""Native routines get the right data, parameters and sizes."""
from .common import *   # noqa
from .pyset import *   # noqa


def check(c):
    P = program(c, True)
    pyrule(c, P, 'native', 'every native call gets the arguments the reference gives it, in particular the '
           'output size the native routine fills', tagged(allitems(), 'native'))
