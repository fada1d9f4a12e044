"""Symbolic inputs of the Python lemmas."""
from ..pylemma import inarr, dim, intp, flt
from ..terms import num, lt, le, eq, and_, or_, not_, TRUE, FALSE, ZERO, ONE, sym, fn
from ..pyeval import PyDict, Inst, Class

NPIX = 48


def field(tag, spin=0, pe=False, pb=False, nt=0, given=False, lite=False, beam=False, sp=True,
          maps=True, lmax='lmax', lmax_mask='lmax_mask', n_iter=True, tol=True, aniso=False, npix=NPIX,
          wcs=None, shape=None, extra=()):
    """a description of a field: mask, maps and keywords"""
    kw = {'lmax': intp(lmax), 'lmax_mask': intp(lmax_mask)}
    if n_iter:
        kw['n_iter'] = intp('n_iter')
        kw['n_iter_mask'] = intp('n_iter_mask')
    if tol:
        kw['tol_pinv'] = flt('tol')
    if sp:
        kw['spin'] = num(spin)
    nm = 2 if spin else 1
    if pe:
        kw['purify_e'] = TRUE
    if pb:
        kw['purify_b'] = TRUE
    if given:
        kw['masked_on_input'] = TRUE
    if lite:
        kw['lite'] = TRUE
    if wcs is not None:
        kw['wcs'] = wcs
    shape = shape or (npix,)
    if nt:
        kw['templates'] = inarr('temp' + tag, (nt, nm) + shape)
    if beam:
        kw['beam'] = inarr('beam' + tag, (dim('beam' + tag),))
    if aniso:
        kw['mask_22'] = inarr('mask22' + tag, shape)
        kw['mask_12'] = inarr('mask12' + tag, shape)
    for k, v in extra:
        kw[k] = v
    return PyDict({'mask': inarr('mask' + tag, shape),
                   'maps': inarr('maps' + tag, (nm,) + shape) if maps else None,
                   'kw': PyDict(kw)})


def bins(tag='', lmax='lmax'):
    n = dim('bins' + tag)
    return PyDict({'bpws': inarr('bpws' + tag, (n,), 'i4'), 'ells': inarr('ells' + tag, (n,), 'i4'),
                   'weights': inarr('wbin' + tag, (n,)), 'f_ell': inarr('fbin' + tag, (n,)),
                   'lmax': intp(lmax)})


def positive(*names):
    return and_(*[lt(ZERO, intp(n)) for n in names])


RANGES = {'in:lmax': (2, 4), 'in:lmax_mask': (3, 5), 'in:lmax2': (2, 4), 'in:lmax_mask2': (3, 5)}


def ffield(tag, spin=0, pe=False, pb=False, nt=0, given=False, lite=False, beam=False, sp=True,
           maps=True, tol=True, ny='ny', nx='nx', extra=()):
    kw = {}
    if sp:
        kw['spin'] = num(spin)
    if pe:
        kw['purify_e'] = TRUE
    if pb:
        kw['purify_b'] = TRUE
    if given:
        kw['masked_on_input'] = TRUE
    if lite:
        kw['lite'] = TRUE
    if tol:
        kw['tol_pinv'] = flt('tol')
    nm = 2 if spin else 1
    sh = (dim(ny), dim(nx))
    if nt:
        kw['templates'] = inarr('temp' + tag, (nt, nm, dim(ny + 't'), dim(nx + 't')))
    if beam:
        kw['beam'] = inarr('beam' + tag, (2, dim('beam' + tag)))
    for k, v in extra:
        kw[k] = v
    return PyDict({'lx': flt('lx' + tag), 'ly': flt('ly' + tag), 'mask': inarr('mask' + tag, sh),
                   'maps': inarr('maps' + tag, (nm, dim(ny + 'm'), dim(nx + 'm'))) if maps else None,
                   'kw': PyDict(kw)})


def fbins(tag=''):
    return PyDict({'l0': inarr('l0' + tag, (dim('nb' + tag),)),
                   'lf': inarr('lf' + tag, (dim('nb' + tag),))})


def cat(tag, spin=None, nf=1, nsrc=None, fld=True, weighted=False, lonlat=False, lmax_mask=None, beam=False,
        flat=False):
    n = nsrc or dim('src' + tag)
    kw = {}
    if spin is not None:
        kw['spin'] = num(spin)
    if weighted:
        kw['field_is_weighted'] = TRUE
    if lonlat:
        kw['lonlat'] = TRUE
    if lmax_mask:
        kw['lmax_mask'] = intp(lmax_mask)
    if beam:
        kw['beam'] = inarr('beam' + tag, (dim('beam' + tag),))
    return PyDict({'pos': inarr('pos' + tag, (2, n)), 'w': inarr('w' + tag, (n,)),
                   'field': inarr('fld' + tag, (n,) if flat else (nf, n)) if fld else None,
                   'lmax': intp('lmax'), 'kw': PyDict(kw)})


def clus(tag, lonlat=False):
    n, m = dim('src' + tag), dim('rand' + tag)
    return PyDict({'pos': inarr('pos' + tag, (2, n)), 'w': inarr('w' + tag, (n,)),
                   'rand': inarr('rand' + tag, (2, m)), 'wrand': inarr('wrand' + tag, (m,)),
                   'lmax': intp('lmax'), 'lonlat': TRUE if lonlat else FALSE})
