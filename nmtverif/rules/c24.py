"""Simulations."""
from .common import *   # noqa
from .pyset import *   # noqa
from .c14 import transforms


def native(thorough):
    sp = [(0,), (2,), (0, 2), (2, 0)] + ([(2, 2), (0, 0, 2), (0, 0, 0)] if thorough else [(0, 0)])
    for s in sp:
        n = sum(2 if x else 1 for x in s)
        cf = dict(nf=len(s), s1=s[0], s2=s[1] if len(s) > 1 else 0, s3=s[2] if len(s) > 2 else 0)
        yield cf, [dict(i=i) for i in range(n)]


def check(c):
    P = program(c, True)
    M = dict(lemma.MODELS, **lemma.FLAT)
    need(P, 'nmt_synfast_flat')
    c.rule('native', 'every Fourier mode of a flat-sky simulation is the beam times the square root of the '
           'power spectrum matrix, over the mode volume, applied to independent unit draws, with the '
           'symmetry of a real map; ' + LEMMA)
    G = {'@x': range(6), 'nx': [3], 'ny': [3]}
    lemmas(c, P, 'native', [('synflat', cf, {'models': M, 'multi': m, 'grid': G, 'n': 2})
                            for cf, m in native(c.thorough)] + list(transforms(False)))
    pyrule(c, P, 'sim', 'random maps have the requested spectra, components, beams and seed',
           tagged(utils_items(), 'sim'))
