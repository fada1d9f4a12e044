"""Deprojection biases."""
from .common import *   # noqa
from .pyset import *   # noqa


def flat(thorough):
    it = []
    for s1 in (0, 2):
        for s2 in (0, 2):
            for t1, t2 in ((0, 0), (1, 0), (0, 1), (1, 1), (1, 2), (2, 1)):
                if t1 + t2 > 2 and not thorough and s1 + s2 != 2:
                    continue
                for p in ((0, 0, 0, 0), (1, 0, 0, 1), (0, 1, 1, 0), (1, 1, 0, 0), (0, 0, 1, 1)):
                    if (s1 == 0 and (p[0] or p[1])) or (s2 == 0 and (p[2] or p[3])):
                        continue
                    if t1 + t2 == 0 and any(p):
                        continue
                    n = (2 if s1 else 1) * (2 if s2 else 1)
                    A = range(n)
                    if not thorough and n == 4:
                        A = (1, 2) if t1 + t2 else (0,)
                    for a in A:
                        it.append(dict(s1=s1, s2=s2, t1=t1, t2=t2, pe1=p[0], pb1=p[1], pe2=p[2],
                                       pb2=p[3], a=a))
    return sorted(it, key=lambda d: -(d['t1'] + d['t2']) * 10 - d['s1'] - d['s2'])


def check(c):
    P = program(c, True)
    M = dict(lemma.MODELS, **lemma.FLAT)
    need(P, 'nmt_compute_deprojection_bias_flat')
    c.rule('native', 'every bandpower of the flat-sky deprojection bias is the sum of the three terms that the '
           'least-squares fit of the templates adds for the given spectra; ' + LEMMA)
    lemmas(c, P, 'native', [('fdeproj', d, {'models': M, 'strict': True}) for d in flat(c.thorough)])
    pyrule(c, P, 'bias', 'deprojection and noise biases are those of the templates, spectra and maps '
           'given', bias_items() + [i for i in flat_items() if i.name == 'bias'])
