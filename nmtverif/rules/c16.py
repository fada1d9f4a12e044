"""Accessors."""
from .common import *   # noqa
from .pyset import *   # noqa


def check(c):
    P = program(c, True)
    its = tagged(fields() + flat_items(), 'getter')
    its += [i for i in fields() if i.name in ('attrs', 'twice', 'order')]
    its += [i for i in cat_items() if i.name == 'what']
    pyrule(c, P, 'getter', 'an accessor returns the quantity it names, every time it is called, or raises '
           'where there is none', its)
    pyrule(c, P, 'bins', 'bandpower accessors describe the bandpowers in use', [
        i for i in bins_items() if i.name in ('get', 'flat_get', 'edges')])
