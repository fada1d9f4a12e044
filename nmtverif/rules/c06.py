"""Objects keep their own copies."""
from .common import *   # noqa
from . import pyset, pyeffects
from .. import calias, pylemma


def check(c):
    P = program(c, True)
    c.rule('native', 'no C function reached from Python keeps a pointer derived from an input array, '
           'or from another object, in the objects it returns, updates or in globals '
           '(flow-sensitive pointer facts, through all calls)')
    for w, a, f, sites, kept, vis in calias.native_inputs(P, pylemma.wraps(P)):
        kept = [k for k in kept if w.ret.endswith('*') or k[0] != 'the result']
        if w.ret in ('double *', 'flouble *'):
            continue
        key = 'native:%s(%s)' % (w.name, a.name)
        d = {'functions': vis[:40], 'kept': ['%s%s' % (k[0], ''.join(k[1])) for k in kept]}
        must = [k for k in kept if k[2]]
        if must:
            c.add(key, BAD, '%s:%d' % (f.file.split('/')[-1], f.line),
                  'memory of %s stays in %s%s' % (a.name, must[0][0], ''.join(must[0][1])), 'native', d)
        else:
            c.add(key, UNK if kept else OK, '', '', 'native', d)
    c.rule('python', 'after a use of the public interface no attribute of a NaMaster object is memory '
           'of the caller')
    for it in pyset.allitems():
        c.job(it.key, pyeffects.private, P, it, 'python')
    c.floor = 600
