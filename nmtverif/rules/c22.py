"""Apodisation."""
from .common import *   # noqa
from .pyset import *   # noqa


def native(thorough):
    M = dict(lemma.MODELS, **lemma.FLAT)
    MC, MS = dict(M, **lemma.SPHC), dict(M, **lemma.SPH)

    def rg(**kw):
        return lambda s: dict(lemma.shapes(s), **kw)
    k = 4 if thorough else 1
    fl = rg(nx=(2, 5), ny=(2, 5), lx=(1., 3.), ly=(1., 3.), size=(20., 110.), ip=(0, 16))
    fs = rg(nx=(4, 4), ny=(4, 4), lx=(1., 2.), ly=(1., 2.), size=(6., 20.))
    sp = rg(nside=(1, 1), size=(20., 110.), ip=(0, 11), disc=(0, 11), disclen=(0, 4), pixvec=(-0.57, 0.57))
    ss = rg(nside=(1, 1), size=(10., 60.), ip=(0, 11), disc=(0, 11), disclen=(0, 2), pixvec=(-0.57, 0.57))
    one = {'multi': [{}], 'strict': True}
    for c2 in (0, 1):
        yield 'apoflat', dict(c2=c2), dict(one, models=M, ranges=fl, n=400 * k)
        yield 'aposph', dict(c2=c2), dict(one, models=MC, ranges=sp, n=1000 * k)
    yield 'apozero', {}, dict(one, models=M)
    yield 'aposphzero', {}, dict(one, models=M)
    yield 'aposmooth', {}, dict(one, models=M, ranges=fs, grid={'@x': range(16) if thorough else [0, 5, 7, 10]},
                                n=6 * k)
    yield 'aposphsm', {}, dict(one, models=MS, ranges=ss, n=100 * k)


def check(c):
    P = program(c, True)
    need(P, 'nmt_apodize_mask', 'nmt_apodize_mask_flat')
    c.rule('native', 'every pixel of an apodised mask is the pixel of the input times the documented function of '
           'its distance to the nearest masked pixel; ' + LEMMA)
    lemmas(c, P, 'native', list(native(c.thorough)))
    pyrule(c, P, 'apo', 'apodisation calls hand the mask, scale and method on and return a new mask of the '
           'same size', tagged(utils_items(), 'apo'))
