import numpy as np
import healpy as hp
import pymaster as nmt
import pymaster.utils as ut
import pymaster.nmtlib as lib
from spec.py_field import ref


def pair(a, b):
    """two fields; the same object twice when only one is described"""
    f1 = nmt.NmtField(a['mask'], a['maps'], **a['kw'])
    if b is None:
        return f1, f1
    return f1, nmt.NmtField(b['mask'], b['maps'], **b['kw'])


def mkbins(b):
    return nmt.NmtBin(bpws=b['bpws'], ells=b['ells'], lmax=b['lmax'], weights=b['weights'],
                      f_ell=b['f_ell'])


def rbins(b):
    return lib.bins_create_py(b['bpws'], b['ells'], b['weights'], b['f_ell'], b['lmax'])


# ------------------------------------------------------------------ pseudo-C_ell
def L_pcl(a, b):
    f1, f2 = pair(a, b)
    return nmt.compute_coupled_cell(f1, f2)


def R_pcl(a, b):
    """spectrum i1 * nmaps2 + i2 correlates component i1 of the first field and i2 of the second"""
    lmax = a['kw']['lmax']
    x = ref(a['mask'], a['maps'], a['kw'])['alm']
    y = x
    if b is not None:
        if b['kw']['lmax'] != lmax or b['kw']['lmax_mask'] != a['kw']['lmax_mask']:
            raise ValueError
        y = ref(b['mask'], b['maps'], b['kw'])['alm']
    out = []
    for i in range(len(x)):
        for j in range(len(y)):
            out.append(hp.alm2cl(x[i], y[j], lmax=lmax))
    return np.array(out)


# ------------------------------------------------------------------ coupling matrix
def iso(a):
    """isotropic part of a mask"""
    m22 = a['kw'].get('mask_22')
    if m22 is None:
        return a['mask']
    return (a['mask'] + m22) / 2


def aniso(a):
    return a['kw'].get('mask_22') is not None


def maskalm(a):
    minfo = ut.NmtMapInfo(a['kw'].get('wcs'), a['mask'].shape)
    m = minfo.reform_map(iso(a))
    return ut.map2alm(np.array([m]), 0, minfo, ut.NmtAlmInfo(a['kw']['lmax_mask']),
                      n_iter=a['kw']['n_iter_mask'])[0]


def amaskalm(a):
    minfo = ut.NmtMapInfo(a['kw'].get('wcs'), a['mask'].shape)
    m = minfo.reform_map(np.array([(a['mask'] - a['kw']['mask_22']) / 2, a['kw']['mask_12']]))
    return ut.map2alm(m, 2 * a['kw']['spin'], minfo, ut.NmtAlmInfo(a['kw']['lmax_mask']),
                      n_iter=a['kw']['n_iter_mask'])


def dot(a, b):
    minfo = ut.NmtMapInfo(a['kw'].get('wcs'), a['mask'].shape)
    return minfo.si.dot_map(minfo.reform_map(iso(a)), minfo.reform_map(iso(b)))


def beamof(a):
    if 'beam' in a['kw']:
        if len(a['kw']['beam']) <= a['kw']['lmax']:
            raise ValueError
        return a['kw']['beam']
    return np.ones(a['kw']['lmax'] + 1)


def rwsp(a, b, bins, kw):
    if b is None:
        b = a
    ka = a['kw']
    kb = b['kw']
    if kb['lmax'] != ka['lmax'] or kb['lmax_mask'] != ka['lmax_mask']:
        raise ValueError
    if ka['lmax'] != bins['lmax']:
        raise ValueError
    pcl = hp.alm2cl(maskalm(a), maskalm(b), lmax=ka['lmax_mask'])
    norm = kw.get('normalization', 'MASTER')
    if norm != 'MASTER' and norm != 'FKP':
        raise ValueError
    fkp = 1 if norm == 'FKP' else 0
    w2 = 0
    if fkp:
        w2 = dot(a, b) / (4 * np.pi)
    bn = rbins(bins)
    lt = kw.get('l_toeplitz', -1)
    le = kw.get('l_exact', -1)
    db = kw.get('dl_band', -1)
    if lt > 0:
        if ka.get('purify_e') or ka.get('purify_b') or kb.get('purify_e') or kb.get('purify_b'):
            raise ValueError
        if le <= 0 or db < 0 or le > lt:
            raise ValueError
        if lt >= bn.ell_max or le >= bn.ell_max or db >= bn.ell_max:
            raise ValueError
    if aniso(a) or aniso(b):
        if lt > 0:
            raise NotImplementedError
        for f in (a, b):
            if aniso(f):
                ref(f['mask'], None, f['kw'])
        sp = [[pcl, pcl * 0, pcl * 0], [pcl * 0, pcl * 0, pcl * 0], [pcl * 0, pcl * 0, pcl * 0]]
        x = [maskalm(a)]
        y = [maskalm(b)]
        if aniso(a):
            x = [x[0], amaskalm(a)[0], amaskalm(a)[1]]
        if aniso(b):
            y = [y[0], amaskalm(b)[0], amaskalm(b)[1]]
        for i in range(len(x)):
            for j in range(len(y)):
                sp[i][j] = hp.alm2cl(x[i], y[j], lmax=ka['lmax_mask'])
        return lib.comp_coupling_matrix_anisotropic(
            ka['spin'], kb['spin'], int(aniso(a)), int(aniso(b)), ka['lmax'], ka['lmax_mask'],
            sp[0][0], sp[0][1], sp[0][2], sp[1][0], sp[2][0], sp[1][1], sp[1][2], sp[2][1], sp[2][2],
            beamof(a), beamof(b), bn, fkp, w2)
    return lib.comp_coupling_matrix(
        ka['spin'], kb['spin'], ka['lmax'], ka['lmax_mask'],
        int(ka.get('purify_e', False)), int(ka.get('purify_b', False)),
        int(kb.get('purify_e', False)), int(kb.get('purify_b', False)),
        fkp, w2, beamof(a), beamof(b), pcl, bn,
        int(kw.get('is_teb', False)), lt, le, db)


def lwsp(a, b, bins, kw):
    f1, f2 = pair(a, b)
    return nmt.NmtWorkspace.from_fields(f1, f2, mkbins(bins), **kw)


def L_mcm(a, b, bins, kw):
    return lwsp(a, b, bins, kw).get_coupling_matrix()


def R_mcm(a, b, bins, kw):
    w = rwsp(a, b, bins, kw)
    n = (w.lmax + 1) * w.ncls
    return lib.get_mcm(w, n * n).reshape([n, n])


def L_windows(a, b, bins, kw):
    return lwsp(a, b, bins, kw).get_bandpower_windows()


def R_windows(a, b, bins, kw):
    """windows[i, b, j, l] is the response of bandpower b of spectrum i to multipole l of j"""
    w = rwsp(a, b, bins, kw)
    nc = w.ncls
    nb = w.bin.n_bands
    nl = w.lmax + 1
    d = lib.get_bandpower_windows(w, nc * nb * nc * nl)
    return d.reshape([nb, nc, nl, nc]).transpose([1, 0, 3, 2])


def need(c, n, l):
    if len(c) != n:
        raise ValueError
    if len(c[0]) < l + 1:
        raise ValueError


def L_couple(a, b, bins, kw, cl):
    return lwsp(a, b, bins, kw).couple_cell(cl)


def R_couple(a, b, bins, kw, cl):
    w = rwsp(a, b, bins, kw)
    need(cl, w.ncls, w.lmax)
    return np.reshape(lib.couple_cell_py(w, cl[:, :w.lmax + 1], w.ncls * (w.lmax + 1)),
                      [w.ncls, w.lmax + 1])


def L_decouple(a, b, bins, kw, cl, bias, noise):
    return lwsp(a, b, bins, kw).decouple_cell(cl, cl_bias=bias, cl_noise=noise)


def R_decouple(a, b, bins, kw, cl, bias, noise):
    w = rwsp(a, b, bins, kw)
    need(cl, w.ncls, w.lmax)
    if bias is None:
        bias = np.zeros(cl.shape)
    if noise is None:
        noise = np.zeros(cl.shape)
    need(bias, w.ncls, w.lmax)
    need(noise, w.ncls, w.lmax)
    return np.reshape(lib.decouple_cell_py(w, cl, noise, bias, w.ncls * w.bin.n_bands),
                      [w.ncls, w.bin.n_bands])


# ------------------------------------------------------------------ updates and files
def L_update_beams(a, b, bins, kw, b1, b2):
    w = lwsp(a, b, bins, kw)
    w.update_beams(b1, b2)
    return w.get_coupling_matrix()


def R_update_beams(a, b, bins, kw, b1, b2):
    w = rwsp(a, b, bins, kw)
    if len(b1) <= w.lmax_fields or len(b2) <= w.lmax_fields:
        raise ValueError
    lib.wsp_update_beams(w, b1, b2)
    n = (w.lmax + 1) * w.ncls
    return lib.get_mcm(w, n * n).reshape([n, n])


def L_update_bins(a, b, bins, kw, bins2):
    w = lwsp(a, b, bins, kw)
    w.update_bins(mkbins(bins2))
    return w.get_coupling_matrix()


def R_update_bins(a, b, bins, kw, bins2):
    w = rwsp(a, b, bins, kw)
    lib.wsp_update_bins(w, rbins(bins2))
    n = (w.lmax + 1) * w.ncls
    return lib.get_mcm(w, n * n).reshape([n, n])


def L_update_mcm(a, b, bins, kw, m):
    w = lwsp(a, b, bins, kw)
    w.update_coupling_matrix(m)
    return w.get_coupling_matrix()


def R_update_mcm(a, b, bins, kw, m):
    w = rwsp(a, b, bins, kw)
    n = (w.lmax + 1) * w.ncls
    if len(m) != n:
        raise ValueError
    lib.update_mcm(w, n, m.flatten())
    n = (w.lmax + 1) * w.ncls
    return lib.get_mcm(w, n * n).reshape([n, n])


def L_write(a, b, bins, kw, fname):
    lwsp(a, b, bins, kw).write_to(fname)


def R_write(a, b, bins, kw, fname):
    lib.write_workspace(rwsp(a, b, bins, kw), "!" + fname)


def L_read(fname, full):
    w = nmt.NmtWorkspace.from_file(fname, read_unbinned_MCM=full)
    return w.couple_cell(np.zeros([w.wsp.ncls, w.wsp.lmax + 1]))


def R_read(fname, full):
    w = lib.read_workspace(fname, int(full))
    if not full:
        raise ValueError
    return np.reshape(lib.couple_cell_py(w, np.zeros([w.ncls, w.lmax + 1]), w.ncls * (w.lmax + 1)),
                      [w.ncls, w.lmax + 1])


def use(w, what, bins, b1, cl):
    if what == 'mcm':
        return w.get_coupling_matrix()
    if what == 'windows':
        return w.get_bandpower_windows()
    if what == 'write':
        return w.write_to('x')
    if what == 'couple':
        return w.couple_cell(cl)
    if what == 'beams':
        return w.update_beams(b1, b1)
    if what == 'bins':
        return w.update_bins(mkbins(bins))
    if what == 'matrix':
        return w.update_coupling_matrix(cl)
    return w.decouple_cell(cl)


def L_short(what, bins, b1, cl):
    """a workspace restored without its unbinned matrix"""
    return use(nmt.NmtWorkspace.from_file('f', read_unbinned_MCM=False), what, bins, b1, cl)


def R_short(what, bins, b1, cl):
    raise ValueError


def L_empty(what, bins, b1, cl):
    """a workspace that was never filled"""
    return use(nmt.NmtWorkspace(), what, bins, b1, cl)


def R_empty(what, bins, b1, cl):
    raise ValueError


def L_again(a, b, c, bins, kw):
    """a workspace is computed again, for other fields"""
    w = lwsp(a, a, bins, kw)
    f1, f2 = pair(b, c)
    w.compute_coupling_matrix(f1, f2, mkbins(bins), **kw)
    return w.get_coupling_matrix()


def R_again(a, b, c, bins, kw):
    rwsp(a, a, bins, kw)
    return R_mcm(b, c, bins, kw)


def L_reread(a, b, bins, kw):
    """a workspace is replaced by the one of a file"""
    w = lwsp(a, b, bins, kw)
    w.read_from('g')
    return w.get_coupling_matrix()


def R_reread(a, b, bins, kw):
    rwsp(a, b, bins, kw)
    w = lib.read_workspace('g', 1)
    n = (w.lmax + 1) * w.ncls
    return lib.get_mcm(w, n * n).reshape([n, n])
