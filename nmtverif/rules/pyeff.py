import os
from .common import *   # noqa
from . import pyset, pyeffects


def check(c):
    P = program(c, True)
    f = os.environ.get('EFF', 'untouched')
    its = pyset.allitems() if not os.environ.get('GRP') else getattr(pyset, os.environ['GRP'])()
    pyeffects.rule_jobs(c, P, getattr(pyeffects, f), f, '', its)
