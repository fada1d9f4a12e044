"""Order of the spectra."""
from .common import *   # noqa
from .pyset import *   # noqa


def check(c):
    P = program(c, True)
    M = dict(lemma.MODELS, **lemma.FLAT)
    need(P, 'nmt_compute_coupled_cell_flat')
    c.rule('native', 'the flat-sky spectrum in position (component of the first field, component of the second '
           'field) is the mean over the modes of a bandpower of the product of these components; ' + LEMMA)
    it = []
    for s1 in (0, 2):
        for s2 in (0, 2):
            for m1 in range(2 if s1 else 1):
                for m2 in range(2 if s2 else 1):
                    it.append(('cell_flat', dict(s1=s1, s2=s2, m1=m1, m2=m2), {'models': M}))
    lemmas(c, P, 'native', it)
    pyrule(c, P, 'order', 'spectra are taken and returned in the same fixed order of component pairs',
           tagged(allitems(), 'order'))
