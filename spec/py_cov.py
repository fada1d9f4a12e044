import numpy as np
import healpy as hp
import pymaster as nmt
import pymaster.utils as ut
import pymaster.nmtlib as lib
from spec.py_ws import rwsp, rbins, mkbins


def mk(a):
    return nmt.NmtField(a['mask'], a['maps'], **a['kw'])


def aniso(*fs):
    for x in fs:
        if x is not None and x['kw'].get('mask_22') is not None:
            return True
    return False


def lcw(a1, a2, b1, b2, kw):
    f = mk(a1)
    g = f if a2 is None else mk(a2)
    if b1 is None and b2 is None:
        return nmt.NmtCovarianceWorkspace.from_fields(f, g, **kw)
    if b2 is None:
        return nmt.NmtCovarianceWorkspace.from_fields(f, g, mk(b1), **kw)
    if b1 is None:
        return nmt.NmtCovarianceWorkspace.from_fields(f, g, flb2=mk(b2), **kw)
    return nmt.NmtCovarianceWorkspace.from_fields(f, g, mk(b1), mk(b2), **kw)


def rcw(a1, a2, b1, b2, kw):
    """spectra of the products of the masks that appear together in the two Wick pairings"""
    if aniso(a1, a2, b1, b2):
        raise NotImplementedError
    if a2 is None:
        a2 = a1
    if b1 is None:
        b1 = a1
    if b2 is None:
        b2 = a2
    k = a1['kw']
    for x in (a2, b1, b2):
        if x['kw']['lmax'] != k['lmax'] or x['kw']['lmax_mask'] != k['lmax_mask']:
            raise ValueError
    minfo = ut.NmtMapInfo(k.get('wcs'), a1['mask'].shape)
    ai = ut.NmtAlmInfo(k['lmax_mask'])

    def cl(p, q, r, s):
        x = ut.map2alm(np.array([minfo.reform_map(p['mask']) * minfo.reform_map(q['mask'])]), 0,
                       minfo, ai, n_iter=k['n_iter_mask'])[0]
        y = ut.map2alm(np.array([minfo.reform_map(r['mask']) * minfo.reform_map(s['mask'])]), 0,
                       minfo, ai, n_iter=k['n_iter_mask'])[0]
        return hp.alm2cl(x, y, lmax=k['lmax_mask'])
    lt = kw.get('l_toeplitz', -1)
    le = kw.get('l_exact', -1)
    db = kw.get('dl_band', -1)
    if lt > 0:
        if le <= 0 or db < 0 or le > lt or lt >= k['lmax'] or le >= k['lmax'] or db >= k['lmax']:
            raise ValueError
    return lib.covar_workspace_init_py(cl(a1, b1, a2, b2), cl(a1, b2, a2, b1), k['lmax'],
                                       k['lmax_mask'], lt, le, db, int(kw.get('spin0_only', False)))


def L_cw_write(a1, a2, b1, b2, kw, fname):
    lcw(a1, a2, b1, b2, kw).write_to(fname)


def R_cw_write(a1, a2, b1, b2, kw, fname):
    lib.write_covar_workspace(rcw(a1, a2, b1, b2, kw), "!" + fname)


def L_cw_read(fname, force, fname2):
    nmt.NmtCovarianceWorkspace.from_file(fname, force_spin0_only=force).write_to(fname2)


def R_cw_read(fname, force, fname2):
    lib.write_covar_workspace(lib.read_covar_workspace(fname, int(force)), "!" + fname2)


def wsp(a, b, bins):
    f1 = mk(a)
    f2 = f1 if b is None else mk(b)
    return nmt.NmtWorkspace.from_fields(f1, f2, mkbins(bins))


def sizes(cw, wa, wb, s, c):
    nm = [1 if x == 0 else 2 for x in s]
    if wa.ncls != nm[0] * nm[1] or wb.ncls != nm[2] * nm[3]:
        raise ValueError
    for k, (i, j) in enumerate([(0, 2), (0, 3), (1, 2), (1, 3)]):
        if len(c[k]) != nm[i] * nm[j] or len(c[k][0]) < cw.lmax + 1:
            raise ValueError


def L_gauss(a1, a2, b1, b2, bins, s, c, coupled, two):
    cw = lcw(a1, a2, b1, b2, {})
    wa = wsp(a1, a2, bins)
    if two:
        return nmt.gaussian_covariance(cw, s[0], s[1], s[2], s[3], c[0], c[1], c[2], c[3], wa,
                                       wsp(b1, b2, bins), coupled=coupled)
    return nmt.gaussian_covariance(cw, s[0], s[1], s[2], s[3], c[0], c[1], c[2], c[3], wa,
                                   coupled=coupled)


def R_gauss(a1, a2, b1, b2, bins, s, c, coupled, two):
    cw = rcw(a1, a2, b1, b2, {})
    wa = rwsp(a1, a2, bins, {})
    wb = rwsp(b1, b2, bins, {}) if two else wa
    sizes(cw, wa, wb, s, c)
    if coupled:
        na = wa.ncls * (cw.lmax + 1)
        nb = wb.ncls * (cw.lmax + 1)
        d = lib.comp_gaussian_covariance_coupled(cw, s[0], s[1], s[2], s[3], wa, wb, c[0], c[1],
                                                 c[2], c[3], na * nb)
    else:
        na = wa.ncls * wa.bin.n_bands
        nb = wb.ncls * wb.bin.n_bands
        d = lib.comp_gaussian_covariance(cw, s[0], s[1], s[2], s[3], wa, wb, c[0], c[1], c[2],
                                         c[3], na * nb)
    return np.reshape(d, [na, nb])


def L_cw_empty():
    return nmt.NmtCovarianceWorkspace().write_to('x')


def R_cw_empty():
    raise ValueError


def L_gauss_short(cl):
    """the coupled covariance needs the unbinned matrices"""
    cw = nmt.NmtCovarianceWorkspace.from_file('c')
    w = nmt.NmtWorkspace.from_file('f', read_unbinned_MCM=False)
    return nmt.gaussian_covariance(cw, 0, 0, 0, 0, cl, cl, cl, cl, w, coupled=True)


def R_gauss_short(cl):
    raise ValueError


def L_cw_again(a1, a2, b1, b2, fname):
    cw = lcw(a1, a2, b1, b2, {})
    cw.compute_coupling_coefficients(mk(b1), mk(b2), mk(a2), mk(a1))
    cw.write_to(fname)


def R_cw_again(a1, a2, b1, b2, fname):
    rcw(a1, a2, b1, b2, {})
    lib.write_covar_workspace(rcw(b1, b2, a2, a1, {}), "!" + fname)
