import numpy as np
import healpy as hp
import ducc0
import pymaster as nmt
import pymaster.utils as ut
import pymaster.nmtlib as lib
from spec.py_field import ref
from spec.py_ws import mkbins, rbins, maskalm, beamof


def mk(a):
    if 'rand' in a:
        return nmt.NmtFieldCatalogClustering(a['pos'], a['w'], a['rand'], a['wrand'], a['lmax'],
                                             lonlat=a['lonlat'])
    if 'pos' in a:
        return nmt.NmtFieldCatalog(a['pos'], a['w'], a['field'], a['lmax'], **a['kw'])
    return nmt.NmtField(a['mask'], a['maps'], **a['kw'])


def pair(a, b):
    f = mk(a)
    if b is None:
        return f, f
    return f, mk(b)


def angles(p, lonlat):
    """colatitude and longitude in radians"""
    if lonlat:
        p = np.array([np.pi / 2 - np.pi / 180. * p[1], np.pi / 180. * p[0]])
    for x in (p[0] >= 0, p[0] <= np.pi, p[1] >= 0, p[1] <= 2 * np.pi):
        if not x.all():
            raise ValueError
    return p


def transform(v, p, spin, lmax):
    return ducc0.sht.adjoint_synthesis_general(lmax=lmax, map=v, loc=p.T, spin=spin, epsilon=1E-5)


def shape(p, w):
    if p.shape[0] != 2 or p.shape[1] != len(w):
        raise ValueError


def robj(a):
    """what a field is: coefficients of field and mask, beam, shot noise of both"""
    if 'rand' in a:
        shape(a['pos'], a['w'])
        shape(a['rand'], a['wrand'])
        p = angles(a['pos'], a['lonlat'])
        q = angles(a['rand'], a['lonlat'])
        w = a['w']
        v = a['wrand']
        alpha = np.sum(w) / np.sum(v)
        nw = alpha ** 2 * np.sum(v ** 2) / (4 * np.pi)
        m = transform(np.array([v * alpha]), q, 0, a['lmax'])
        return {'alm': transform(np.array([w]), p, 0, a['lmax']) - m, 'mask': m[0],
                'beam': np.ones(a['lmax'] + 1), 'nw': nw,
                'nf': np.sum(w ** 2) / (4 * np.pi) + nw, 'spin': 0, 'cat': True,
                'lmax': a['lmax'], 'lmax_mask': a['lmax'], 'pe': 0, 'pb': 0, 'alpha': alpha}
    if 'pos' in a:
        kw = a['kw']
        w = a['w']
        lmax = a['lmax']
        shape(a['pos'], w)
        p = angles(a['pos'], kw.get('lonlat', False))
        lm = kw.get('lmax_mask')
        if lm is None:
            lm = lmax
        b = kw.get('beam')
        if b is None:
            b = np.ones(lmax + 1)
        elif len(b) <= lmax:
            raise ValueError
        spin = kw.get('spin')
        f = a['field']
        r = {'mask': transform(np.array([w]), p, 0, lm)[0], 'beam': b,
             'nw': np.sum(w ** 2) / (4 * np.pi), 'nf': 0., 'cat': True, 'lmax': lmax,
             'lmax_mask': lm, 'pe': 0, 'pb': 0, 'alpha': None, 'alm': None}
        if f is not None:
            if f.ndim == 1:
                f = f.reshape([1, f.shape[0]])
            if spin is None:
                spin = 0 if len(f) == 1 else 2
            nm = 2 if spin else 1
            if len(f) != nm or f.shape[1] != len(w):
                raise ValueError
            if not kw.get('field_is_weighted', False):
                f = f * w
            r['alm'] = transform(f, p, spin, lmax)
            r['nf'] = np.sum(f ** 2) / (4 * np.pi * nm)
        elif spin is None:
            raise ValueError
        r['spin'] = spin
        return r
    kw = a['kw']
    return {'alm': ref(a['mask'], a['maps'], kw)['alm'], 'mask': maskalm(a), 'beam': beamof(a),
            'nw': 0., 'nf': 0., 'spin': kw['spin'], 'cat': False, 'lmax': kw['lmax'],
            'lmax_mask': kw['lmax_mask'], 'pe': int(kw.get('purify_e', False)),
            'pb': int(kw.get('purify_b', False))}


def rpair(a, b):
    f = robj(a)
    if b is None:
        return f, f
    g = robj(b)
    if f['lmax'] != g['lmax'] or f['lmax_mask'] != g['lmax_mask']:
        raise ValueError
    return f, g


def L_what(a, what):
    f = mk(a)
    if what == 'Nw':
        return f.Nw
    if what == 'Nf':
        return f.Nf
    if what == 'alpha':
        return f.alpha
    if what == 'beam':
        return f.beam
    if what == 'alm_mask':
        return f.get_mask_alms()
    if what == 'spin':
        return f.spin
    if what == 'nmaps':
        return f.nmaps
    return f.get_alms()


def R_what(a, what):
    r = robj(a)
    if what == 'Nw':
        return r['nw']
    if what == 'Nf':
        return r['nf']
    if what == 'alpha':
        return r['alpha']
    if what == 'beam':
        return r['beam']
    if what == 'alm_mask':
        return r['mask']
    if what == 'spin':
        return r['spin']
    if what == 'nmaps':
        return 2 if r['spin'] else 1
    if r['alm'] is None:
        raise ValueError
    return r['alm']


def L_pcl(a, b):
    f, g = pair(a, b)
    return nmt.compute_coupled_cell(f, g)


def R_pcl(a, b):
    """shot noise only leaves an auto-correlation: EE, BB or the scalar power"""
    f, g = rpair(a, b)
    x = f['alm']
    y = g['alm']
    out = []
    for i in range(len(x)):
        for j in range(len(y)):
            c = hp.alm2cl(x[i], y[j], lmax=f['lmax'])
            if b is None and i == j:
                c = c - f['nf']
            out.append(c)
    return np.array(out)


def L_mcm(a, b, bins, kw):
    f, g = pair(a, b)
    return nmt.NmtWorkspace.from_fields(f, g, mkbins(bins), **kw).get_coupling_matrix()


def R_mcm(a, b, bins, kw):
    f, g = rpair(a, b)
    if f['lmax'] != bins['lmax']:
        raise ValueError
    pcl = hp.alm2cl(f['mask'], g['mask'], lmax=f['lmax_mask'])
    if b is None:
        pcl = pcl - f['nw']
    fkp = 1 if kw.get('normalization', 'MASTER') == 'FKP' else 0
    w2 = 0
    if fkp:
        if b is not None:
            raise ValueError
        w2 = f['nw']
    w = lib.comp_coupling_matrix(f['spin'], g['spin'], f['lmax'], f['lmax_mask'], f['pe'], f['pb'],
                                 g['pe'], g['pb'], fkp, w2, f['beam'], g['beam'], pcl,
                                 rbins(bins), int(kw.get('is_teb', False)), -1, -1, -1)
    n = (w.lmax + 1) * w.ncls
    return lib.get_mcm(w, n * n).reshape([n, n])
