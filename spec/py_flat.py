import numpy as np
import pymaster as nmt
import pymaster.utils as ut
import pymaster.nmtlib as lib


def mk(a):
    return nmt.NmtFieldFlat(a['lx'], a['ly'], a['mask'], a['maps'], **a['kw'])


def rfield(a):
    """flat field: maps and mask flattened row by row, ny rows of nx pixels"""
    kw = a['kw']
    mask = a['mask']
    maps = a['maps']
    spin = kw.get('spin')
    lx = a['lx']
    ly = a['ly']
    if lx < 0 or ly < 0:
        raise ValueError
    ny = mask.shape[0]
    nx = mask.shape[1]
    pe = int(kw.get('purify_e', False))
    pb = int(kw.get('purify_b', False))
    beam = kw.get('beam')
    if beam is None:
        beam = np.array([[-1.], [-1.]])
    m = mask.flatten()
    if maps is None and spin is None:
        raise ValueError
    if maps is not None:
        if len(maps) != 1 and len(maps) != 2:
            raise ValueError
        if spin is None:
            spin = 0 if len(maps) == 1 else 2
        if (spin == 0) != (len(maps) == 1):
            raise ValueError
    if (pe or pb) and spin != 2:
        raise ValueError
    if maps is None:
        return lib.field_alloc_empty_flat(nx, ny, lx, ly, spin, m, beam, pe, pb)
    for x in maps:
        if x.shape[0] != ny or x.shape[1] != nx:
            raise ValueError
    mp = np.array([x.flatten() for x in maps])
    given = int(kw.get('masked_on_input', False))
    lite = int(kw.get('lite', False))
    t = kw.get('templates')
    if t is None:
        return lib.field_alloc_new_notemp_flat(nx, ny, lx, ly, spin, m, mp, beam, pe, pb, given, lite)
    for x in t:
        if len(x) != len(maps):
            raise ValueError
        for y in x:
            if y.shape[0] != ny or y.shape[1] != nx:
                raise ValueError
    tm = np.array([[y.flatten() for y in x] for x in t])
    tol = kw.get('tol_pinv')
    if tol is None:
        tol = ut.nmt_params.tol_pinv_default
    return lib.field_alloc_new_flat(nx, ny, lx, ly, spin, m, mp, tm, beam, pe, pb, tol, given, lite)


def pair(a, b):
    f = mk(a)
    return f, (f if b is None else mk(b))


def rpair(a, b):
    f = rfield(a)
    if b is None:
        return f, f
    return f, rfield(b)


def same(a, b):
    """geometry of the two patches"""
    if b is None:
        return
    if a['mask'].shape[0] != b['mask'].shape[0] or a['mask'].shape[1] != b['mask'].shape[1]:
        raise ValueError


def bins(b):
    return nmt.NmtBinFlat(b['l0'], b['lf'])


def rb(b):
    return lib.bins_flat_create_py(b['l0'], b['lf'])


def L_maps(a):
    return mk(a).get_maps()


def R_maps(a):
    f = rfield(a)
    if a['maps'] is None or a['kw'].get('lite', False):
        raise ValueError
    ny = a['mask'].shape[0]
    nx = a['mask'].shape[1]
    return np.array([lib.get_map_flat(f, i, f.npix) for i in range(f.nmaps)]).reshape(
        [f.nmaps, ny, nx])


def L_mask(a):
    return mk(a).get_mask()


def R_mask(a):
    f = rfield(a)
    return lib.get_mask_flat(f, f.npix).reshape([a['mask'].shape[0], a['mask'].shape[1]])


def L_templates(a):
    return mk(a).get_templates()


def R_templates(a):
    f = rfield(a)
    if a['maps'] is None or a['kw'].get('lite', False):
        raise ValueError
    return np.array([[lib.get_temp_flat(f, i, j, f.npix) for j in range(f.nmaps)]
                     for i in range(f.ntemp)]).reshape(
        [f.ntemp, f.nmaps, a['mask'].shape[0], a['mask'].shape[1]])


def L_ells(a):
    return mk(a).get_ell_sampling()


def R_ells(a):
    f = rfield(a)
    return lib.get_ell_sampling_flat(f, f.fs.n_ell)


def L_pcl(a, b, bn, cx, cy):
    f, g = pair(a, b)
    return nmt.compute_coupled_cell_flat(f, g, bins(bn), ell_cut_x=cx, ell_cut_y=cy)


def R_pcl(a, b, bn, cx, cy):
    f, g = rpair(a, b)
    same(a, b)
    b_ = rb(bn)
    n = f.nmaps * g.nmaps
    return np.reshape(lib.comp_pspec_coupled_flat(f, g, b_, n * b_.n_bands, cx[0], cx[1], cy[0],
                                                  cy[1]), [n, b_.n_bands])


def L_write(a, b, bn, cx, cy, teb, fname):
    f, g = pair(a, b)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f, g, bins(bn), ell_cut_x=cx, ell_cut_y=cy, is_teb=teb)
    w.write_to(fname)


def rw(a, b, bn, cx, cy, teb):
    f, g = rpair(a, b)
    return lib.comp_coupling_matrix_flat(f, g, rb(bn), cx[0], cx[1], cy[0], cy[1], int(teb))


def R_write(a, b, bn, cx, cy, teb, fname):
    lib.write_workspace_flat(rw(a, b, bn, cx, cy, teb), "!" + fname)


def L_read(fname, fname2):
    w = nmt.NmtWorkspaceFlat()
    w.read_from(fname)
    w.write_to(fname2)


def R_read(fname, fname2):
    lib.write_workspace_flat(lib.read_workspace_flat(fname), "!" + fname2)


def L_couple(a, b, bn, cx, cy, ells, cl):
    f, g = pair(a, b)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f, g, bins(bn), ell_cut_x=cx, ell_cut_y=cy)
    return w.couple_cell(ells, cl)


def R_couple(a, b, bn, cx, cy, ells, cl):
    w = rw(a, b, bn, cx, cy, False)
    if len(cl) != w.ncls or len(cl[0]) != len(ells):
        raise ValueError
    return np.reshape(lib.couple_cell_py_flat(w, ells, cl, w.ncls * w.bin.n_bands),
                      [w.ncls, w.bin.n_bands])


def L_decouple(a, b, bn, cx, cy, cl, bias, noise):
    f, g = pair(a, b)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f, g, bins(bn), ell_cut_x=cx, ell_cut_y=cy)
    return w.decouple_cell(cl, cl_bias=bias, cl_noise=noise)


def shape2(c, n, m):
    if len(c) != n or len(c[0]) != m:
        raise ValueError


def R_decouple(a, b, bn, cx, cy, cl, bias, noise):
    w = rw(a, b, bn, cx, cy, False)
    nb = w.bin.n_bands
    shape2(cl, w.ncls, nb)
    if bias is None:
        bias = np.zeros(cl.shape)
    if noise is None:
        noise = np.zeros(cl.shape)
    shape2(bias, w.ncls, nb)
    shape2(noise, w.ncls, nb)
    return np.reshape(lib.decouple_cell_py_flat(w, cl, noise, bias, w.ncls * nb), [w.ncls, nb])


def L_bias(a, b, bn, ells, cl, cx, cy):
    f, g = pair(a, b)
    return nmt.deprojection_bias_flat(f, g, bins(bn), ells, cl, ell_cut_x=cx, ell_cut_y=cy)


def R_bias(a, b, bn, ells, cl, cx, cy):
    f, g = rpair(a, b)
    n = f.nmaps * g.nmaps
    b_ = rb(bn)
    shape2(cl, n, len(ells))
    return np.reshape(lib.comp_deproj_bias_flat(f, g, b_, cx[0], cx[1], cy[0], cy[1], ells, cl,
                                                n * b_.n_bands), [n, b_.n_bands])


def L_master(a, b, bn, noise, guess, ells, cx, cy, use):
    f, g = pair(a, b)
    bb = bins(bn)
    w = None
    if use:
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(f, g, bb, ell_cut_x=cx, ell_cut_y=cy)
    return nmt.compute_full_master_flat(f, g, bb, cl_noise=noise, cl_guess=guess, ells_guess=ells,
                                        workspace=w, ell_cut_x=cx, ell_cut_y=cy)


def R_master(a, b, bn, noise, guess, ells, cx, cy, use):
    f, g = rpair(a, b)
    same(a, b)
    bb = rb(bn)
    w = None
    if use:
        w = lib.comp_coupling_matrix_flat(f, g, bb, cx[0], cx[1], cy[0], cy[1], 0)
    n = f.nmaps * g.nmaps
    if noise is None:
        noise = np.zeros([n, bb.n_bands])
    shape2(noise, n, bb.n_bands)
    if guess is None:
        guess = np.zeros([n, bb.n_bands])
        ells = lib.get_ell_eff_flat(bb, bb.n_bands)
    else:
        if ells is None:
            raise ValueError
        shape2(guess, n, len(ells))
    return np.reshape(lib.comp_pspec_flat(f, g, bb, w, noise, ells, guess, n * bb.n_bands, cx[0],
                                          cx[1], cy[0], cy[1]), [n, bb.n_bands])


def L_cw(a1, a2, ba, b1, b2, bb, fname):
    cw = nmt.NmtCovarianceWorkspaceFlat()
    if b1 is None:
        cw.compute_coupling_coefficients(mk(a1), mk(a2), bins(ba))
    else:
        cw.compute_coupling_coefficients(mk(a1), mk(a2), bins(ba), flb1=mk(b1), flb2=mk(b2),
                                         bin_b=bins(bb))
    cw.write_to(fname)


def rcw(a1, a2, ba, b1, b2, bb):
    f = rfield(a1)
    g = rfield(a2)
    same(a1, a2)
    x = rb(ba)
    if b1 is None:
        return lib.covar_workspace_flat_init_py(f, g, x, f, g, x)
    same(a1, b1)
    same(a1, b2)
    return lib.covar_workspace_flat_init_py(f, g, x, rfield(b1), rfield(b2), rb(bb))


def R_cw(a1, a2, ba, b1, b2, bb, fname):
    lib.write_covar_workspace_flat(rcw(a1, a2, ba, b1, b2, bb), "!" + fname)


def L_cw_read(fname, fname2):
    c = nmt.NmtCovarianceWorkspaceFlat()
    c.read_from(fname)
    c.write_to(fname2)


def R_cw_read(fname, fname2):
    lib.write_covar_workspace_flat(lib.read_covar_workspace_flat(fname), "!" + fname2)


def lwf(a, b, bn):
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(mk(a), mk(b), bn)
    return w


def L_gauss(a1, a2, b1, b2, ba, s, ells, c, two):
    cw = nmt.NmtCovarianceWorkspaceFlat()
    x = bins(ba)
    if two:
        cw.compute_coupling_coefficients(mk(a1), mk(a2), x, flb1=mk(b1), flb2=mk(b2))
        return nmt.gaussian_covariance_flat(cw, s[0], s[1], s[2], s[3], ells, c[0], c[1], c[2], c[3],
                                            lwf(a1, a2, x), lwf(b1, b2, x))
    cw.compute_coupling_coefficients(mk(a1), mk(a2), x)
    return nmt.gaussian_covariance_flat(cw, s[0], s[1], s[2], s[3], ells, c[0], c[1], c[2], c[3],
                                        lwf(a1, a2, x))


def R_gauss(a1, a2, b1, b2, ba, s, ells, c, two):
    same(a1, a2)
    x = rb(ba)

    def w(p, q):
        return lib.comp_coupling_matrix_flat(rfield(p), rfield(q), x, 1., -1., 1., -1., 0)
    f = rfield(a1)
    g = rfield(a2)
    if two:
        same(a1, b1)
        same(a1, b2)
        cw = lib.covar_workspace_flat_init_py(f, g, x, rfield(b1), rfield(b2), x)
    else:
        cw = lib.covar_workspace_flat_init_py(f, g, x, f, g, x)
    wa = w(a1, a2)
    wb = w(b1, b2) if two else wa
    nm = [1 if t == 0 else 2 for t in s]
    if wa.ncls != nm[0] * nm[1] or wb.ncls != nm[2] * nm[3]:
        raise ValueError
    for k, (i, j) in enumerate([(0, 2), (0, 3), (1, 2), (1, 3)]):
        shape2(c[k], nm[i] * nm[j], len(ells))
    na = wa.ncls * cw.bin.n_bands
    nb = wb.ncls * cw.bin.n_bands
    return np.reshape(lib.comp_gaussian_covariance_flat(
        cw, s[0], s[1], s[2], s[3], wa, wb, ells, c[0], c[1], c[2], c[3], na * nb), [na, nb])


def L_tol(a, tol):
    """the default tolerance in force when the field is made"""
    ut.set_tol_pinv_default(tol)
    return mk(a).get_templates()


def R_tol(a, tol):
    if tol < 0 or tol > 1:
        raise ValueError
    b = dict(a)
    b['kw'] = dict(a['kw'])
    b['kw']['tol_pinv'] = tol
    return R_templates(b)


def use(w, what, cl, ells):
    if what == 'write':
        return w.write_to('x')
    if what == 'couple':
        return w.couple_cell(ells, cl)
    return w.decouple_cell(cl)


def L_empty(what, cl, ells):
    return use(nmt.NmtWorkspaceFlat(), what, cl, ells)


def R_empty(what, cl, ells):
    raise ValueError


def L_cw_empty():
    return nmt.NmtCovarianceWorkspaceFlat().write_to('x')


def R_cw_empty():
    raise ValueError
