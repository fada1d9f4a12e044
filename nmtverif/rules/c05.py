"""Inputs are left as they were."""
from .common import *   # noqa
from . import pyset, pyeffects
from .. import calias, pylemma

CHANGES = ('update', 'free')


def check(c):
    P = program(c, True)
    rs = calias.native_inputs(P, pylemma.wraps(P))
    mod = {}
    c.rule('native', 'no C function reached from Python stores through a pointer derived from an input '
           'array or from an object it only reads (flow-sensitive pointer facts, through all calls); '
           'the arrays it does modify are listed for the Python rule')
    for w, a, f, sites, kept, vis in rs:
        if any(x in w.name for x in CHANGES) and a is w.args[0] and a.kind == 'handle':
            continue
        key = 'native:%s(%s)' % (w.name, a.name)
        d = {'functions': vis[:40], 'stores': [s.where() + ' ' + s.what for s in sites]}
        must = [s for s in sites if s.must]
        if a.kind == 'array':
            if sites:
                mod[w.name, a.name] = (bool(must), (must or sites)[0].where())
            c.add(key, OK, '', 'modified: Python must pass a copy' if sites else '', 'native', d)
        elif must:
            c.add(key, BAD, must[0].where(), '%s of the %s it is given is modified (%s)' % (
                a.name, a.ctype, must[0].what), 'native', d)
        else:
            c.add(key, UNK if sites else OK, '', '', 'native', d)
    c.note('arrays modified by native code', sorted('%s(%s)' % k for k in mod))
    c.rule('python', 'after a use of the public interface the arrays, lists and dictionaries handed in '
           'have their original content, no array of the caller reaches a native routine that modifies '
           'it, and the attributes of fields and bandpowers are those they had when they were made')
    for it in pyset.allitems():
        c.job(it.key, pyeffects.untouched, P, it, 'python', mod)
    c.floor = 600
