"""Fields: masking, deprojection, purification."""
from .common import *   # noqa
from .pyset import *   # noqa


def places(spin, nt, pure, lite=0, only=0):
    n = 2 if spin else 1
    m = [dict(what=4, i=0, j=0), dict(what=7, i=0, j=0)]
    m += [dict(what=8, i=i, j=0) for i in range(12)]
    m += [dict(what=9, i=i, j=0) for i in range(5) if nt or i < 4]
    if only:
        return m
    m += [dict(what=0, i=i, j=0) for i in range(n)]
    m += [dict(what=6, i=i, j=j) for i in range(nt) for j in range(nt)]
    if lite:
        return m
    m += [dict(what=1, i=i, j=0) for i in range(n)]
    m += [dict(what=w, i=i, j=j) for w in (2, 3) for i in range(n) for j in range(nt)]
    if pure:
        m += [dict(what=5, i=0, j=0)]
    return m


def flat(thorough):
    it = []
    for spin in (0, 1, 2):
        for nt in (0, 1, 2):
            for pe, pb in (((0, 0), (1, 0), (0, 1), (1, 1)) if spin == 2 else ((0, 0),)):
                for masked in (0, 1):
                    for lite in (0, 1):
                        if not thorough and ((nt + masked + pe + lite) % 2 or nt == 0 and masked):
                            continue
                        it.append((spin, nt, pe, pb, masked, lite, 0, (nt + pb) % 2))
        it.append((spin, 0, 0, 0, 0, 0, 1, 0))
    return it


def transforms(both=True):
    """flat-sky transforms over the plain discrete Fourier transform"""
    M = dict(lemma.MODELS, **lemma.FFT)
    for sp in (0, 1, 2, 3):
        for nt in (1, 2):
            nm = nt * (2 if sp else 1)
            at = [dict(i=i) for i in range(nm)]
            cf = dict(nt=nt, spin=sp, nm=nm)
            if both:
                yield 'map2alm', cf, {'models': M, 'multi': at, 'strict': True}
            yield 'alm2map', cf, {'models': M, 'multi': at, 'strict': True,
                                  'grid': {'@x': range(6), 'nx': [3], 'ny': [3]}}


def check(c):
    P = program(c, True)
    M = dict(lemma.MODELS, **lemma.FLAT)
    need(P, 'nmt_field_flat_alloc', 'nmt_purify_flat', 'fs_map2alm', 'fs_alm2map')
    c.rule('native', 'every member of a flat-sky field is what the reference makes of the mask, maps, templates, '
           'beam and settings: masked once, deprojected by least squares, purified; ' + LEMMA)
    it = []
    for f in sorted(flat(c.thorough), key=lambda f: -f[0] - f[1]):
        cfg = dict(zip(('spin', 'ntemp', 'pe', 'pb', 'masked', 'lite', 'only', 'nobeam'), f))
        it.append(('ffield', cfg, {'models': M, 'strict': True,
                                   'multi': places(f[0], f[1], f[2] or f[3], f[5], f[6])}))
    lemmas(c, P, 'native', it + list(transforms()))
    pyrule(c, P, 'field', 'the multipoles, maps, templates and masks of a field are those of the '
           'reference construction', tagged(fields() + flat_items(), 'field'))
    pyrule(c, P, 'templates', 'the multipoles of the templates kept by a field are those of the reference '
           'construction (seen through the noise bias)', tagged(bias_items(), 'templates'))
