"""Bandpowers."""
from .common import *   # noqa
from .pyset import *   # noqa


def check(c):
    P = program(c, True)
    pyrule(c, P, 'bins', 'bandpower constructors, accessors and binning follow the given multipoles and '
           'weights', bins_items())
    need(P, 'nmt_bins_create', 'nmt_bins_constant', 'nmt_bin_cls', 'nmt_unbin_cls', 'nmt_ell_eff',
         'nmt_bins_flat_create', 'nmt_bins_flat_search_fast', 'nmt_bin_cls_flat', 'nmt_unbin_cls_flat')
    c.rule('native', 'the native bandpowers hold the multipoles, normalised weights and prefactors they were '
           'given and their averages are weighted sums over them; a wavenumber is looked up in the '
           'only band that contains it, whatever the hint; ' + LEMMA)
    it = []
    S = {'strict': True}
    for sh, nb, nl in ((0, 2, 2), (1, 2, 2), (2, 1, 1), (3, 3, 1)):
        m = [dict(q=q, i=i, j=j) for q in range(6) for i in range(nb) for j in range(nl)]
        for none in (0, 1):
            it.append(('bins_create', dict(sh=sh, none=none), dict(S, multi=m)))
    for q in range(6):
        for l2 in (0, 1):
            it.append(('bins_const', dict(is_l2=l2, q=q)))
    it += [('bin_cls', {}), ('ell_eff', {}), ('ell_eff_flat', {})]
    for sh in (0, 1):
        it.append(('unbin_cls', dict(sh=sh), dict(S, multi=[dict(a=a, i=i, x=x) for a in (0, 1)
                                                           for i in (0, 1) for x in (0, 1)])))
    it += [('bins_flat', dict(q=q)) for q in range(3)]
    for n in range(1, 5 if c.thorough else 4):
        it += [('search', dict(n=n, start=s)) for s in range(-1, n)]
    M = dict(lemma.MODELS, **lemma.FLAT)
    it += [('bin_flat', {}, {'models': M})]
    it += [('unbin_flat', dict(nb=n), {'models': M}) for n in (1, 2)]
    lemmas(c, P, 'native', it)
    c.floor = 100
