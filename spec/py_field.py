import numpy as np
import healpy as hp
import pymaster as nmt
import pymaster.utils as ut


def setup(prm):
    """the process-wide defaults in force when the field is made"""
    if prm is None:
        return
    ut.set_n_iter_default(prm['n_iter'])
    ut.set_n_iter_default(prm['n_iter_mask'], mask=True)
    ut.set_tol_pinv_default(prm['tol_pinv'])


def rsetup(prm, kw):
    d = dict(kw)
    if prm is None:
        return d
    if prm['n_iter'] < 0 or prm['n_iter_mask'] < 0:
        raise ValueError
    if prm['tol_pinv'] < 0 or prm['tol_pinv'] > 1:
        raise ValueError
    for k in ('n_iter', 'n_iter_mask', 'tol_pinv'):
        if d.get(k) is None:
            d[k] = prm[k]
    return d


def make(mask, maps, kw, prm):
    setup(prm)
    return nmt.NmtField(mask, maps, **kw)


def L_alms(mask, maps, kw, prm):
    return make(mask, maps, kw, prm).get_alms()


def L_maps(mask, maps, kw, prm):
    return make(mask, maps, kw, prm).get_maps()


def L_temp(mask, maps, kw, prm):
    return make(mask, maps, kw, prm).get_templates()


def L_mask(mask, maps, kw, prm):
    return make(mask, maps, kw, prm).get_mask()


def L_mask_alms(mask, maps, kw, prm):
    return make(mask, maps, kw, prm).get_mask_alms()


def L_amask(mask, maps, kw, prm):
    return make(mask, maps, kw, prm).get_anisotropic_mask()


def L_amask_alms(mask, maps, kw, prm):
    return make(mask, maps, kw, prm).get_anisotropic_mask_alms()


def L_attrs(mask, maps, kw, prm):
    """every kind of field offers the same attributes"""
    f = make(mask, maps, kw, prm)
    return [f.spin, f.nmaps, f.beam, f.n_iter, f.n_iter_mask, f.ainfo.lmax, f.ainfo_mask.lmax,
            f.n_temp, f.lite, f.Nw, f.Nf, f.alpha, f.pure_e, f.pure_b, f.is_catalog,
            f.anisotropic_mask]


def L_twice(mask, maps, kw, prm):
    """asking again gives the same answer"""
    f = make(mask, maps, kw, prm)
    a = f.get_mask_alms()
    b = f.get_alms()
    f.get_mask()
    return [a, f.get_mask_alms(), b, f.get_alms(), f.get_mask()]


def L_aorder(mask, maps, kw, prm):
    """in any order"""
    f = make(mask, maps, kw, prm)
    a = f.get_anisotropic_mask_alms()
    b = f.get_mask_alms()
    c = f.get_anisotropic_mask()
    return [a, b, c, f.get_mask(), f.get_anisotropic_mask_alms(), f.get_mask_alms(),
            f.get_anisotropic_mask(), f.get_alms()]


def L_order(mask, maps, kw, prm):
    f = make(mask, maps, kw, prm)
    a = [f.get_alms(), f.get_mask(), f.get_maps()]
    if f.n_temp > 0:
        a.append(f.get_templates())
    a.append(f.get_mask_alms())
    a += [f.get_maps(), f.get_alms(), f.get_mask_alms(), f.get_mask()]
    if f.n_temp > 0:
        a.append(f.get_templates())
    return a


def ref(mask, maps, kw, prm=None):
    """What a field is: masked, deprojected, purified; then transformed."""
    kw = rsetup(prm, kw)
    spin = kw.get('spin')
    n_iter = kw['n_iter']
    n_iter_mask = kw['n_iter_mask']
    pe = kw.get('purify_e', False)
    pb = kw.get('purify_b', False)
    templates = kw.get('templates')
    m22 = kw.get('mask_22')
    m12 = kw.get('mask_12')
    aniso = m22 is not None or m12 is not None
    if aniso:
        if m22 is None or m12 is None:
            raise ValueError
        if np.any(mask * m22 - m12 * m12 < -1E-5 * np.mean(mask + m22)):
            raise ValueError
        a1 = (mask - m22) / 2
        mask = (mask + m22) / 2
    minfo = ut.NmtMapInfo(kw.get('wcs'), mask.shape)
    lmax = kw.get('lmax')
    if lmax is None:
        lmax = minfo.get_lmax()
    lmax_mask = kw.get('lmax_mask')
    if lmax_mask is None:
        lmax_mask = minfo.get_lmax()
    if lmax <= 0 or lmax_mask <= 0:
        raise ValueError
    ai = ut.NmtAlmInfo(lmax)
    aim = ut.NmtAlmInfo(lmax_mask)
    beam = np.ones(lmax + 1)
    if 'beam' in kw:
        beam = kw['beam']
        if len(beam) <= lmax:
            raise ValueError
    given = kw.get('masked_on_input', False)
    mask = minfo.reform_map(mask)
    ma = None
    if aniso:
        ma = minfo.reform_map(np.array([a1, m12]))
    r = {'alm': None, 'maps': None, 'temp': None, 'mask': mask, 'mask_a': ma, 'minfo': minfo,
         'ai': ai, 'aim': aim, 'pe': pe, 'pb': pb, 'n_iter': n_iter, 'n_iter_mask': n_iter_mask,
         'lmax': lmax, 'lmax_mask': lmax_mask, 'beam': beam, 'lite': kw.get('lite', False),
         'aniso': aniso, 'nt': 0}
    if maps is None:
        if spin is None:
            raise ValueError
        if aniso and spin == 0:
            raise ValueError
        r['spin'] = spin
        r['nm'] = 2 if spin else 1
        return r
    if len(maps) != 1 and len(maps) != 2:
        raise ValueError
    if spin is None:
        spin = 0 if len(maps) == 1 else 2
    nm = 2 if spin else 1
    if len(maps) != nm:
        raise ValueError
    if (pe or pb) and spin != 2:
        raise ValueError
    if aniso:
        if spin == 0:
            raise ValueError
        if pe or pb or templates is not None:
            raise NotImplementedError
    maps = minfo.reform_map(maps)
    if given:
        fm = maps
        fu = np.where(mask > 0, maps / np.where(mask > 0, mask, 1.), maps)
    elif aniso:
        fm = np.array([maps[0] * mask + maps[0] * ma[0] + maps[1] * ma[1],
                       maps[1] * mask + maps[0] * ma[1] - maps[1] * ma[0]])
        fu = maps
    else:
        fm = maps * mask
        fu = maps
    if templates is not None:
        if templates.shape[1] != nm:
            raise ValueError
        templates = minfo.reform_map(templates)
        if given:
            tm = templates
            tu = np.where(mask > 0, templates / np.where(mask > 0, mask, 1.), templates)
        else:
            tm = templates * mask
            tu = templates
        nt = len(templates)
        M = np.array([[minfo.si.dot_map(tm[i], tm[j]) for j in range(nt)] for i in range(nt)])
        iM = ut.moore_penrose_pinvh(M, kw['tol_pinv'])
        p = np.array([minfo.si.dot_map(tm[i], fm) for i in range(nt)])
        al = np.dot(iM, p)
        for i in range(nt):
            fm = fm - al[i] * tm[i]
            fu = fu - al[i] * tu[i]
    wl = None
    if pe or pb:
        wl = ut.map2alm(np.array([mask]), 0, minfo, aim, n_iter=n_iter_mask)[0]
        alm = purify(mask, wl, fu, minfo, ai, aim, n_iter, pe, pb)
        out = ut.alm2map(alm, 2, minfo, ai)
    else:
        alm = ut.map2alm(fm, spin, minfo, ai, n_iter=n_iter)
        out = fm
    r['alm'] = alm
    r['maps'] = out
    r['spin'] = spin
    r['nm'] = nm
    if templates is not None:
        r['temp'] = tm
        r['iM'] = iM
        r['nt'] = nt
        if pe or pb:
            r['alm_temp'] = [purify(mask, wl, tu[i], minfo, ai, aim, n_iter, pe, pb)
                             for i in range(nt)]
        else:
            r['alm_temp'] = [ut.map2alm(tm[i], spin, minfo, ai, n_iter=n_iter) for i in range(nt)]
    return r


def purify(mask, wl, m, minfo, ai, aim, n_iter, pe, pb):
    """Smith 2006: the spin-1 and spin-2 derivatives of the mask correct the pure component."""
    ell = np.arange(aim.lmax + 1)
    el = np.arange(ai.lmax + 1)
    a0 = ut.map2alm(m * mask, 2, minfo, ai, n_iter=n_iter)
    w1 = hp.almxfl(wl, -np.sqrt((ell + 1.) * ell), mmax=aim.lmax)
    w1m = ut.alm2map(np.array([w1, w1 * 0]), 1, minfo, aim)
    p1 = ut.map2alm(np.array([w1m[0] * m[0] + w1m[1] * m[1], w1m[0] * m[1] - w1m[1] * m[0]]),
                    1, minfo, ai, n_iter=n_iter)
    f2 = np.where(ell < 2, 0., -np.sqrt((ell + 2.) * (ell - 1.)))
    w2 = hp.almxfl(w1, f2, mmax=aim.lmax)
    w2m = ut.alm2map(np.array([w2, w1 * 0]), 2, minfo, aim)
    q = [w2m[0] * m[0] + w2m[1] * m[1], w2m[0] * m[1] - w2m[1] * m[0]]
    p2 = [ut.map2alm(np.array([q[0]]), 0, minfo, ai, n_iter=n_iter)[0],
          ut.map2alm(np.array([q[1]]), 0, minfo, ai, n_iter=n_iter)[0]]
    g1 = np.where(el < 2, 0., 2. / np.sqrt((el + 2.) * (el - 1.)))
    g2 = np.where(el < 2, 0., 1. / np.sqrt((el + 2.) * (el + 1.) * el * (el - 1.)))
    E = a0[0]
    B = a0[1]
    if pe:
        E = E + hp.almxfl(p1[0], g1, mmax=ai.lmax) + hp.almxfl(p2[0], g2, mmax=ai.lmax)
    if pb:
        B = B + hp.almxfl(p1[1], g1, mmax=ai.lmax) + hp.almxfl(p2[1], g2, mmax=ai.lmax)
    return np.array([E, B])


def R_alms(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    if maps is None:
        raise ValueError
    return r['alm']


def R_maps(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    if maps is None or r['lite']:
        raise ValueError
    return r['maps']


def R_temp(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    if maps is None or r['lite'] or r['temp'] is None:
        raise ValueError
    return r['temp']


def R_mask(mask, maps, kw, prm):
    return ref(mask, maps, kw, prm)['mask']


def maskalms(r):
    return ut.map2alm(np.array([r['mask']]), 0, r['minfo'], r['aim'], n_iter=r['n_iter_mask'])[0]


def R_mask_alms(mask, maps, kw, prm):
    return maskalms(ref(mask, maps, kw, prm))


def R_amask(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    if not r['aniso']:
        raise ValueError
    return r['mask_a']


def R_amask_alms(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    if not r['aniso']:
        raise ValueError
    return ut.map2alm(r['mask_a'], 2 * r['spin'], r['minfo'], r['aim'], n_iter=r['n_iter_mask'])


def R_attrs(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    return [r['spin'], r['nm'], r['beam'], r['n_iter'], r['n_iter_mask'], r['lmax'], r['lmax_mask'],
            r['nt'], r['lite'], 0, 0, None, r['pe'], r['pb'], False, r['aniso']]


def R_twice(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    if maps is None:
        raise ValueError
    a = maskalms(r)
    return [a, a, r['alm'], r['alm'], r['mask']]


def R_aorder(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    a = ut.map2alm(r['mask_a'], 2 * r['spin'], r['minfo'], r['aim'], n_iter=r['n_iter_mask'])
    b = maskalms(r)
    return [a, b, r['mask_a'], r['mask'], a, b, r['mask_a'], r['alm']]


def R_order(mask, maps, kw, prm):
    r = ref(mask, maps, kw, prm)
    m = maskalms(r)
    t = [r['temp']] if r['nt'] else []
    return [r['alm'], r['mask'], r['maps']] + t + [m, r['maps'], r['alm'], m, r['mask']] + t
