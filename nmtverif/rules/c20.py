"""Catalogue fields."""
from .common import *   # noqa
from .pyset import *   # noqa


def check(c):
    P = program(c, True)
    pyrule(c, P, 'catalog', 'multipoles, shot noise and pseudo-spectra of catalogue fields are the sums '
           'over sources', cat_items())
