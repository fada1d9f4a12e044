"""Lifetime of native objects."""
from .common import *   # noqa
from . import pyset, pyeffects


def check(c):
    P = program(c, True)
    c.rule('lifetime', 'native objects are not used after release, released exactly once (when their '
           'owner is replaced or deleted), also when an exception is raised on the way')
    for it in pyset.allitems():
        c.job(it.key, pyeffects.handles, P, it, 'lifetime')
    c.floor = 500
