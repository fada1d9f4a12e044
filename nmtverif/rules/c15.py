"""Omitted arguments."""
from .common import *   # noqa
from .pyset import *   # noqa


def check(c):
    P = program(c, True)
    pyrule(c, P, 'default', 'a call that omits an optional argument behaves as the call with the documented '
           'default; module-wide defaults are read when the call is made',
           tagged(allitems(), 'default', 'params'))
    pyrule(c, P, 'sht', 'transforms follow the current transform settings', [
        i for i in tagged(utils_items(), 'sht')])
