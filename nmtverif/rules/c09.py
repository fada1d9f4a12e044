"""Native results depend on memory that was written only."""
from .common import *   # noqa
from .. import bounds
from . import c04
from ..fitsmodel import MODELS as FITS

SEEN = ('seen', 'seen_i')


def initialised(P, name, cfg, models):
    key = keyof(name, cfg)
    ev, pos = c04.use(P, name, cfg, models, True)
    if not ev.st.alive:
        return [Ob(key, UNK, msg='no normal return', rule='init')]
    raw = {}
    for p, c, loops, node, fr, f, k, u in ev.raw:
        if str(p.args[0].args[1]).startswith('gsl_perm'):
            continue            # filled by the library
        raw.setdefault((fr[-1], node.line if node is not None else 0, u), []).append((p, c, loops, fr))
    out, done = [], set()
    for a in ev.acc:
        if a.kind != 'read' or a.base.args[0] != 'alloc':
            continue
        uid = a.base.args[2]
        at = ev.by.get(uid, ((None, 0), []))[0][0]
        if not c04.mine(at) and a.func not in SEEN:
            continue            # an input array of the caller
        if str(a.base.args[1]).startswith('gsl_perm'):
            continue
        k = (a.func, a.line, uid)
        if k in done:
            continue
        done.add(k)
        w = a.where() if a.func not in SEEN else \
            'element of the result returned to the caller (array %s of %s)' % (uid, name)
        st, msg = OK, ''
        for p, c, loops, fr in raw.get(k, ()):
            if bounds.reached(ev, c, loops) is False:
                continue
            v, un = lemma.vocabulary(c)
            un = set(un) - {str(l.sym.args[0]) for l in loops if l.known and not l.early}
            if un:
                st, msg = UNK, 'unresolved: ' + ', '.join(sorted(un))[:200]
                continue
            st, msg = BAD, 'reads %s, which is never written there if %s' % (T.show(p)[:200], T.show(c)[:300])
            break
        out.append(Ob('%s/%s:%s:%s' % (key, a.func, a.line, uid), st, w, msg, 'init',
                      {'path': ' > '.join(a.frames[1:])}))
    return out


def check(c):
    P = program(c, True)
    c.rule('init', 'every element of a block that native code reads, or hands to the caller, during the lives of '
           'spec/mem.c, was written before, for all sizes')
    M = dict(lemma.MODELS, drc3jj=c04.w3j, drc3jj_000=c04.w3j, **FITS)
    only = os.environ.get('ONLY')
    for n, cfg in c04.uses(c.thorough):
        if only and not keyof(n, cfg).startswith(only):
            continue
        c.job(keyof(n, cfg), initialised, P, n, cfg, M)
    c.floor = 0 if only else 1000
