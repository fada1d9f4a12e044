"""Gaussian covariances: both Wick pairings of every component of every pair of spectra."""
import itertools
from .common import *   # noqa
from .pyset import *   # noqa

S = ('sa', 'sb', 'sc', 'sd')


def check(c):
    P = program(c, True)
    M = dict(lemma.MODELS, **lemma.FLAT)
    need(P, 'nmt_compute_gaussian_covariance', 'nmt_compute_gaussian_covariance_coupled',
         'nmt_compute_gaussian_covariance_flat', 'nmt_covar_workspace_init', 'nmt_covar_workspace_flat_init')
    c.rule('wick', 'every element of the covariance is the sum over both Wick pairings and over all components '
           'of the products of spectra and coupling coefficients, averaged over bandpowers and multiplied by '
           'the inverse coupling matrices of both workspaces; ' + LEMMA)
    every = list(itertools.product((0, 2), repeat=4))
    quick = [s for s in every if sum(s) <= 6] + [(2, 2, 2, 2)]
    it = []
    for s in sorted(every if c.thorough else quick, key=lambda s: -sum(s)):
        it.append(('cov', dict(zip(S, s), spin0=0)))
        it.append(('cov_flat', dict(zip(S, s)), {'models': M}))
    it.append(('cov', dict(zip(S, (0,) * 4), spin0=1)))
    for s in every:
        na, nb = ((2 if s[i] else 1) * (2 if s[i + 1] else 1) for i in (0, 2))
        m = [dict(a=a, b=b) for a in range(na) for b in range(nb)]
        if len(m) > 8 and not c.thorough:
            if s != (2, 2, 2, 2):
                continue
            m = [x for x in m if (x['a'], x['b']) in ((0, 3), (1, 2), (2, 2), (3, 1))]
        h = (len(m) + 3) // 4
        for i in range(0, len(m), h):
            it.append(('cov_c', dict(zip(S, s)), {'multi': m[i:i + h], 'strict': True}))
    lemmas(c, P, 'wick', it)
    c.rule('coefficients', 'the coupling coefficients are those of the products of the masks that appear '
           'together in each pairing; ' + LEMMA)
    it = [('covinit', dict(spin0_only=s), {'multi': [dict(which=w) for w in range(10)]}) for s in (0, 1)]
    it.append(('covinit_flat', {}, {'models': M, 'multi': [dict(which=w) for w in range(11)]}))
    lemmas(c, P, 'coefficients', it)
    c.floor = 80
    pyrule(c, P, 'python', 'Python covariances use the masks, workspaces and spectra of the fields they are '
           'given', [i for i in cov_items() + flat_items()
                     if i.name in ('cw_write', 'cw_again', 'gauss', 'cw')])
