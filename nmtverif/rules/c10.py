"""Parallel regions: no element of shared memory is stored to by two iterations or threads."""
from .common import *   # noqa
from .. import calias, omp


def region_obs(P, A, R, i):
    out = []
    for k, v, where, text in omp.check_region(R):
        out.append(Ob('%d:%s' % (i, k), {'ok': OK, 'bad': BAD, 'unk': UNK}[v], where, text, 'omp',
                      {'function': R.f.name}))
    if not out:
        out.append(Ob('%d:%s' % (i, R.f.name), OK, '', '', 'omp', {'function': R.f.name}))
    return out


def check(c):
    P = program(c, True)
    A = calias.Alias(P)
    c.rule('omp', 'inside every parallel region, a store to memory that is not private to the thread is '
           'protected, or has a subscript that is different for different iterations of the '
           'work-shared loop; functions called there store to no global; objects of libraries that '
           'change when used are private')
    rs = omp.regions(P, A)
    c.note('parallel_regions', ['%s:%s' % (R.f.name, R.node.line) for R in rs])
    n = {}
    for R in rs:
        n[R.f.name] = n.get(R.f.name, 0) + 1
        c.job('%s#%d' % (R.f.name, n[R.f.name]), region_obs, P, A, R, n[R.f.name])
    c.floor = 20
