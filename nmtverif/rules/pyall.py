"""All Python lemmas (development)."""
import os
from .common import *   # noqa
from . import pyset


def check(c):
    P = program(c, True)
    for n in (os.environ.get('GRP') or 'fields ws_items bias_items cov_items flat_items bins_items cat_items '
              'utils_items').split():
        pyset.pyjobs(c, P, n, getattr(pyset, n)())
