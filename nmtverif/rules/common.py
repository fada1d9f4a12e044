"""Helpers shared by the rules."""
import os
from .. import cfront, lemma
from .. import terms as T
from ..core import Ob, OK, BAD, UNK, AnalysisBroken

LEMMA = ('a lemma pairs a use of the public C interface with a reference formula; both are '
         'reduced to value-flow terms from the current source and compared')


def program(c, wrap=False):
    P = cfront.load(wrap)
    c.note('c_functions', P.nfuncs)
    c.note('c_files', [os.path.relpath(f, cfront.REPO) for f in P.files
                       if not f.startswith(cfront.SPEC)])
    return P


def need(P, *names):
    for n in names:
        f = P.lookup(n)
        if f is None:
            raise AnalysisBroken('public function %s not found' % n)


def keyof(name, cfg):
    return name + ''.join(',%s=%s' % kv for kv in sorted((cfg or {}).items()))


def lemma_ob(P, name, cfg, rule, kw):
    kw = dict(kw)
    r = lemma.decide(P, name, cfg, **kw)
    if isinstance(r, list):
        cs = [dict(cfg or {}, **m) for m in kw['multi']]
    else:
        cs, r = [cfg], [r]
    return [result_ob(keyof(name, x), y, rule) for x, y in zip(cs, r)]


def result_ob(key, r, rule):
    st = lemma.sites(r.ev)
    data = {'points': r.points, 'functions': sorted(r.ev.visited)[:30]}
    if r.status == 'violation':
        data['found'] = T.show(r.lhs)[:3000]
        data['expected'] = T.show(r.rhs)[:3000]
        data['stores'] = st[:40]
    return Ob(key, {'ok': OK, 'violation': BAD, 'undecided': UNK}[r.status], '; '.join(st[-3:]),
              r.msg, rule, data)


def lemmas(c, P, rule, items):
    """items: (name, config) or (name, config, kwargs)"""
    for it in items:
        name, cfg = it[0], it[1]
        kw = it[2] if len(it) > 2 else {}
        c.job(keyof(name, cfg), lemma_ob, P, name, cfg, rule, kw)
