import numpy as np
import pymaster as nmt
import pymaster.nmtlib as lib


def mk(b):
    return nmt.NmtBin(bpws=b['bpws'], ells=b['ells'], lmax=b['lmax'], weights=b['weights'],
                      f_ell=b['f_ell'])


def ref(b):
    ells = b['ells']
    lmax = b['lmax']
    w = b['weights']
    f = b['f_ell']
    if lmax is None:
        lmax = np.amax(ells)
    if w is None:
        w = np.ones(len(ells))
    if f is None:
        f = np.ones(len(ells))
    return lib.bins_create_py(b['bpws'], ells, w, f, int(lmax)), int(lmax)


def get(x, what, i):
    if what == 'n_bands':
        return x.get_n_bands()
    if what == 'nell_list':
        return x.get_nell_list()
    if what == 'ell_min':
        return x.get_ell_min(i)
    if what == 'ell_max':
        return x.get_ell_max(i)
    if what == 'ell_list':
        return x.get_ell_list(i)
    if what == 'weight_list':
        return x.get_weight_list(i)
    if what == 'lmax':
        return x.lmax
    return x.get_effective_ells()


def rget(x, lmax, what, i):
    if what == 'n_bands':
        return x.n_bands
    if what == 'nell_list':
        return lib.get_nell_list(x, x.n_bands)
    n = lib.get_nell(x, i)
    if what == 'ell_min':
        return lib.get_ell_list(x, i, n)[0]
    if what == 'ell_max':
        return lib.get_ell_list(x, i, n)[n - 1]
    if what == 'ell_list':
        return lib.get_ell_list(x, i, n)
    if what == 'weight_list':
        return lib.get_weight_list(x, i, n)
    if what == 'lmax':
        return lmax
    return lib.get_ell_eff(x, x.n_bands)


def L_get(b, what, i):
    return get(mk(b), what, i)


def R_get(b, what, i):
    x, lmax = ref(b)
    return rget(x, lmax, what, i)


def L_bin_cell(b, cls):
    return mk(b).bin_cell(cls)


def L_unbin_cell(b, cls):
    return mk(b).unbin_cell(cls)


def two(c, n):
    """one spectrum or a list of spectra, of the required length"""
    one = False
    if c.ndim != 2:
        if c.ndim != 1:
            raise ValueError
        one = True
        c = c.reshape([1, c.shape[0]])
    if c.shape[1] != n:
        raise ValueError
    return c, one


def shaped(o, n, m, one):
    o = np.reshape(o, [n, m])
    return o[0] if one else o


def R_bin_cell(b, cls):
    x, lmax = ref(b)
    c, one = two(cls, lmax + 1)
    return shaped(lib.bin_cl(x, c, c.shape[0] * x.n_bands), c.shape[0], x.n_bands, one)


def R_unbin_cell(b, cls):
    x, lmax = ref(b)
    c, one = two(cls, x.n_bands)
    return shaped(lib.unbin_cl(x, c, c.shape[0] * (lmax + 1)), c.shape[0], lmax + 1, one)


def L_linear(nside, lmax, nlb, dell, f_ell, what, i):
    if lmax is None:
        b = nmt.NmtBin.from_nside_linear(nside, nlb, is_Dell=dell, f_ell=f_ell)
    else:
        b = nmt.NmtBin.from_lmax_linear(lmax, nlb, is_Dell=dell, f_ell=f_ell)
    return get(b, what, i)


def rlinear(nside, lmax, nlb, dell, f_ell):
    if lmax is None:
        lmax = 3 * nside - 1
    ells = np.arange(lmax + 1)
    full = (lmax - 1) // nlb
    q = (ells - 2) // nlb
    bpws = np.where(ells < 2, -1, np.where(q < full, q, -1))
    if f_ell is None:
        f_ell = ells * (ells + 1) / (2 * np.pi) if dell else np.ones(lmax + 1)
    return lib.bins_create_py(bpws, ells, np.ones(lmax + 1), f_ell, lmax), lmax


def R_linear(nside, lmax, nlb, dell, f_ell, what, i):
    b, lmax = rlinear(nside, lmax, nlb, dell, f_ell)
    return rget(b, lmax, what, i)


def L_edges(ini, end, dell, f_ell, what, i):
    return get(nmt.NmtBin.from_edges(ini, end, is_Dell=dell, f_ell=f_ell), what, i)


def R_edges(ini, end, dell, f_ell, what, i):
    ells = []
    bpws = []
    w = []
    for k in range(len(ini)):
        for l in range(ini[k], end[k]):
            ells.append(l)
            bpws.append(k)
            w.append(1. / (end[k] - ini[k]))
    lmax = max(ells)
    ells = np.array(ells)
    if f_ell is None:
        f_ell = ells * (ells + 1) / (2 * np.pi) if dell else np.ones(len(ells))
    return rget(lib.bins_create_py(np.array(bpws), ells, np.array(w), f_ell, lmax), lmax, what, i)


def flat(b):
    return nmt.NmtBinFlat(b['l0'], b['lf'])


def rflat(b):
    return lib.bins_flat_create_py(b['l0'], b['lf'])


def L_flat_get(b, what):
    return flat(b).get_n_bands() if what == 'n_bands' else flat(b).get_effective_ells()


def R_flat_get(b, what):
    x = rflat(b)
    return x.n_bands if what == 'n_bands' else lib.get_ell_eff_flat(x, x.n_bands)


def L_flat_bin(b, ells, cls):
    return flat(b).bin_cell(ells, cls)


def R_flat_bin(b, ells, cls):
    x = rflat(b)
    c, one = two(cls, len(ells))
    return shaped(lib.bin_cl_flat(x, ells, c, c.shape[0] * x.n_bands), c.shape[0], x.n_bands, one)


def L_flat_unbin(b, ells, cls):
    return flat(b).unbin_cell(cls, ells)


def R_flat_unbin(b, ells, cls):
    x = rflat(b)
    c, one = two(cls, x.n_bands)
    return shaped(lib.unbin_cl_flat(x, c, ells, c.shape[0] * len(ells)), c.shape[0], len(ells), one)
