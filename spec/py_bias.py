import numpy as np
import healpy as hp
import pymaster as nmt
import pymaster.utils as ut
import pymaster.nmtlib as lib
from spec.py_field import ref, purify
from spec.py_ws import pair, mkbins, rwsp


def fields(a, b):
    f = ref(a['mask'], a['maps'], a['kw'])
    if b is None:
        return f, f
    if b['kw']['lmax'] != a['kw']['lmax'] or b['kw']['lmax_mask'] != a['kw']['lmax_mask']:
        raise ValueError
    return f, ref(b['mask'], b['maps'], b['kw'])


def contaminate(f, m, n_iter):
    """SHT of a map on the footprint of f, purified if f is"""
    if f['pe'] or f['pb']:
        wl = ut.map2alm(np.array([f['mask']]), 0, f['minfo'], f['aim'], n_iter=f['n_iter_mask'])[0]
        return purify(f['mask'], wl, m, f['minfo'], f['ai'], f['aim'], n_iter, f['pe'], f['pb'])
    return ut.map2alm(m * f['mask'], f['spin'], f['minfo'], f['ai'], n_iter=n_iter)


def response(f, g, cl, n_iter, swap):
    """SHT^-1[C . SHT[w t_j]] for the templates t_j of f, on the sphere of g"""
    out = []
    for j in range(f['nt']):
        a = ut.map2alm(f['temp'][j] * f['mask'], f['spin'], f['minfo'], f['ai'], n_iter=n_iter)
        rows = []
        for n in range(g['nm']):
            s = 0
            for m in range(f['nm']):
                k = (n * f['nm'] + m) if swap else (m * g['nm'] + n)
                s = s + hp.almxfl(a[m], cl[k], mmax=f['lmax'])
            rows.append(s)
        out.append(ut.alm2map(np.array(rows), g['spin'], g['minfo'], g['ai']))
    return out


def L_bias(a, b, cl, n_iter):
    f1, f2 = pair(a, b)
    return nmt.deprojection_bias(f1, f2, cl, n_iter=n_iter)


def bias(f, g, cl, n_iter):
    lmax = f['lmax']
    n1 = f['nm']
    n2 = g['nm']
    out = []
    if f['nt']:
        df = [contaminate(g, m, n_iter) for m in response(f, g, cl, n_iter, False)]
    if g['nt']:
        rg = response(g, f, cl, n_iter, True)
        dg = [contaminate(f, m, n_iter) for m in rg]
    for p in range(n1):
        for q in range(n2):
            c = np.zeros(lmax + 1)
            for i in range(f['nt']):
                for j in range(f['nt']):
                    c = c - f['iM'][i, j] * hp.alm2cl(f['alm_temp'][i][p], df[j][q], lmax=lmax)
            for i in range(g['nt']):
                for j in range(g['nt']):
                    c = c - g['iM'][i, j] * hp.alm2cl(dg[j][p], g['alm_temp'][i][q], lmax=lmax)
            for i in range(f['nt']):
                for j in range(f['nt']):
                    for r in range(g['nt']):
                        for s in range(g['nt']):
                            w = f['minfo'].si.dot_map(f['temp'][j], rg[r] * f['mask'])
                            c = c + f['iM'][i, j] * g['iM'][r, s] * w * hp.alm2cl(
                                f['alm_temp'][i][p], g['alm_temp'][s][q], lmax=lmax)
            out.append(c)
    return np.array(out)


def R_bias(a, b, cl, n_iter):
    f, g = fields(a, b)
    if cl.shape[0] != f['nm'] * g['nm'] or cl.shape[1] != f['lmax'] + 1:
        raise ValueError
    return bias(f, g, cl, n_iter)


def L_noise_bias(a, var, n_iter):
    f1, f2 = pair(a, None)
    return nmt.uncorr_noise_deprojection_bias(f1, var, n_iter=n_iter)


def R_noise_bias(a, var, n_iter):
    f = ref(a['mask'], a['maps'], a['kw'])
    nm = f['nm']
    lmax = f['lmax']
    nt = f['nt']
    v = var.flatten()
    if len(v) != f['minfo'].npix:
        raise ValueError
    if nt:
        s = [ut.map2alm(f['temp'][j] * f['mask'] * f['mask'] * v, f['spin'], f['minfo'], f['ai'],
                        n_iter=n_iter) for j in range(nt)]
    out = []
    for p in range(nm):
        for q in range(nm):
            c = np.zeros(lmax + 1)
            for i in range(nt):
                for j in range(nt):
                    # the two linear terms are transposes of each other
                    c = c - 2 * f['iM'][i, j] * hp.alm2cl(s[j][p], f['alm_temp'][i][q], lmax=lmax)
                    for r in range(nt):
                        for u in range(nt):
                            w = f['minfo'].si.dot_map(f['temp'][j],
                                                      f['temp'][r] * f['mask'] * f['mask'] * v)
                            c = c + f['iM'][i, j] * f['iM'][r, u] * w * hp.alm2cl(
                                f['alm_temp'][i][p], f['alm_temp'][u][q], lmax=lmax)
            out.append(c)
    return np.array(out)


def L_master(a, b, bins, kw, noise, guess):
    f1, f2 = pair(a, b)
    return nmt.compute_full_master(f1, f2, mkbins(bins), cl_noise=noise, cl_guess=guess, **kw)


def R_master(a, b, bins, kw, noise, guess):
    f, g = fields(a, b)
    lmax = f['lmax']
    nc = f['nm'] * g['nm']
    for c in (noise, guess):
        if c is not None:
            if c.shape[0] != nc or c.shape[1] != lmax + 1:
                raise ValueError
    p = []
    for i in range(f['nm']):
        for j in range(g['nm']):
            p.append(hp.alm2cl(f['alm'][i], g['alm'][j], lmax=lmax))
    p = np.array(p)
    if guess is None:
        guess = np.zeros([nc, lmax + 1])
    p = p - bias(f, g, guess, ut.nmt_params.n_iter_default)
    if noise is not None:
        p = p - noise
    w = rwsp(a, b, bins, kw)
    if nc != w.ncls or lmax < w.lmax:
        raise ValueError
    z = np.zeros([nc, lmax + 1])
    return np.reshape(lib.decouple_cell_py(w, p, z, z, w.ncls * w.bin.n_bands),
                      [w.ncls, w.bin.n_bands])


def given(a, n):
    b = dict(a)
    b['kw'] = dict(a['kw'])
    b['kw']['n_iter'] = n
    return b


# the number of iterations is the default in force at the time of the call
def L_bias_default(a, b, cl, p, q):
    ut.set_n_iter_default(p)
    f1, f2 = pair(a, b)
    ut.set_n_iter_default(q)
    return nmt.deprojection_bias(f1, f2, cl)


def R_bias_default(a, b, cl, p, q):
    if p < 0 or q < 0:
        raise ValueError
    return R_bias(given(a, p), given(b, p), cl, q)


def L_noise_bias_default(a, var, p, q):
    ut.set_n_iter_default(p)
    f1, f2 = pair(a, None)
    ut.set_n_iter_default(q)
    return nmt.uncorr_noise_deprojection_bias(f1, var)


def R_noise_bias_default(a, var, p, q):
    if p < 0 or q < 0:
        raise ValueError
    return R_noise_bias(given(a, p), var, q)
