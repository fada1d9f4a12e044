"""Random numbers depend on the seed alone and leave the caller's generator as it was."""
from .common import *   # noqa
from . import pyset, pyeffects
from .. import calias, omp

# sources of values that are not determined by the arguments
SOURCES = ('rand', 'random', 'drand48', 'lrand48', 'time', 'gettimeofday', 'clock', 'clock_gettime',
           'getpid', 'getrandom', 'getentropy', 'rand_r', 'omp_get_wtime')


def rng_obs(R, i):
    out = []
    for k, v, where, text in omp.check_rng(R):
        out.append(Ob('%d:%s' % (i, k), {'ok': OK, 'bad': BAD, 'unk': UNK}[v], where, text, 'streams',
                      {'function': R.f.name}))
    return out or [Ob('%d:%s' % (i, R.f.name), OK, '', 'draws nothing', 'streams', {'function': R.f.name})]


def reach_ob(P, entry):
    """no call to a nondeterministic source is reachable from the simulation functions"""
    f = P.lookup(entry)
    seen, todo, bad = set(), [f], []
    while todo:
        g = todo.pop()
        if g.name in seen or g.body is None:
            continue
        seen.add(g.name)
        for x in g.body.walk():
            if x.kind != 'CallExpr':
                continue
            n = omp.strip(x.ch[0])
            if n.kind != 'DeclRefExpr':
                continue
            h = P.lookup(n.ref, g.file)
            if h is not None and h.body is not None:
                todo.append(h)
            elif n.ref in SOURCES:
                bad.append('%s:%s %s in %s' % (os.path.basename(x.file or ''), x.line, n.ref, g.name))
    d = {'functions': sorted(seen)}
    if bad:
        return Ob('source:' + entry, BAD, '; '.join(bad[:3]),
                  'the numbers do not depend on the seed alone: calls ' + bad[0], 'sources', d)
    return Ob('source:' + entry, OK, '', '', 'sources', d)


def check(c):
    P = program(c, True)
    A = calias.Alias(P)
    c.rule('state', 'every use of the interface leaves the state of the global random generator as it was '
           '(one number drawn when a simulation is asked for without seed)')
    c.rule('streams', 'a generator used in a parallel loop is set in each iteration, before it is used, '
           'with a seed that depends on the iteration and not on the thread')
    c.rule('sources', 'the simulation functions reach no call to the clock, the process number or a '
           'global generator')
    for it in pyset.allitems():
        c.job(it.key, pyeffects.rngstate, P, it, 'state')
    n = {}
    for R in omp.regions(P, A):
        n[R.f.name] = n.get(R.f.name, 0) + 1
        c.job('%s#%d' % (R.f.name, n[R.f.name]), rng_obs, R, n[R.f.name])
    for e in ('nmt_synfast_flat',):
        need(P, e)
        c.job('source:' + e, reach_ob, P, e)
    c.floor = 500
