"""Inputs that do not fit each other are rejected before any native computation."""
from .common import *   # noqa
from .pyset import *   # noqa


def check(c):
    P = program(c, True)
    pyrule(c, P, 'reject', 'inputs that do not fit each other end in an exception, the same inputs as in the '
           'reference and no others, and no native routine is reached with them',
           tagged(allitems(), 'reject'))
