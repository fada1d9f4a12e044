import numpy as np
import healpy as hp
import ducc0
import pymaster as nmt
import pymaster.utils as ut
import pymaster.nmtlib as lib


class Par(object):
    def __init__(self, cdelt, crval, crpix, ctype):
        self.cdelt = cdelt
        self.crval = crval
        self.crpix = crpix
        self.ctype = ctype


class Car(object):
    """what NaMaster uses of an astropy WCS: an exact plate-carree projection"""

    def __init__(self, dra, ddec, ra0, x0, y0, proj):
        self.dra = dra
        self.ddec = ddec
        self.ra0 = ra0
        self.x0 = x0
        self.y0 = y0
        self.wcs = Par([dra, ddec], [ra0, 0.], [x0, y0], ['RA---' + proj, 'DEC--' + proj])

    def wcs_pix2world(self, c, origin):
        k = 1 - origin
        return np.array([[self.ra0 + (c[0, 0] + k - self.x0) * self.dra,
                          (c[0, 1] + k - self.y0) * self.ddec]])


def info(w, shape):
    return ut.NmtMapInfo(w, shape)


def rinfo(w, shape):
    """geometry of a pixelised sphere (rings of constant colatitude)"""
    if w is None:
        npix = shape[0]
        n = 2
        while 12 * n * n != npix:
            n *= 2
            if n > 65536:
                raise ValueError
        th = []
        ph = []
        nph = []
        for r in range(1, 4 * n):
            i = min(r, 4 * n - r)
            if i < n:
                z = 1 - i * i / (3. * n * n)
                nph.append(4 * i)
                ph.append(np.pi / (4 * i))
            else:
                z = 4. / 3. - 2. * i / (3. * n)
                nph.append(4 * n)
                ph.append(np.pi / (4 * n) if (i - n) % 2 == 0 else 0.)
            t = np.arccos(z)
            th.append(t if r <= 2 * n else np.pi - t)
        return {'is_healpix': True, 'nside': n, 'npix': npix, 'theta': np.array(th),
                'phi0': np.array(ph), 'nphi': np.array(nph), 'nring': 4 * n - 1,
                'weight': 4 * np.pi / npix, 'lmax': 3 * n - 1}
    if w.wcs.ctype[0][-3:] != 'CAR' or w.wcs.ctype[1][-3:] != 'CAR':
        raise ValueError
    if len(shape) != 2:
        raise ValueError
    ny, nx = shape
    dth = np.radians(abs(w.ddec))
    dph = np.radians(abs(w.dra))
    dec = [(1 - w.y0) * w.ddec, (ny - w.y0) * w.ddec]
    x = (nx - 1) if w.dra < 0 else 0
    ph0 = np.radians(w.ra0 + (x + 1 - w.x0) * w.dra)
    tmin = np.radians(90 - max(dec))
    tmax = np.radians(90 - min(dec))
    if tmin < 0 or tmax > np.pi:
        raise ValueError
    nfull = int(2 * np.pi / dph + 0.5)
    j0 = int(tmin / dth + 0.5)
    cc = ducc0.sht.experimental.get_gridweights('CC', int(np.pi / dth + 0.5) + 1)
    return {'is_healpix': False, 'nside': -1, 'npix': ny * nx, 'nx': nx, 'ny': ny, 'nring': ny,
            'flip_th': w.ddec > 0, 'flip_ph': w.dra < 0, 'theta_min': tmin, 'theta_max': tmax,
            'd_theta': dth, 'd_phi': dph,
            'theta': np.array([tmin + i * dth for i in range(ny)]),
            'phi0': np.array([ph0 for i in range(ny)]), 'nphi': np.array([nfull for i in range(ny)]),
            'weight': np.array([cc[j0 + i] * dph / (2 * np.pi) for i in range(ny)]), 'nfull': nfull,
            'lmax': int(np.pi / min(dth, dph))}


def rings(r):
    return np.array([sum(r['nphi'][:i]) for i in range(r['nring'])])


def L_info(w, shape, what):
    m = info(w, shape)
    s = m.si
    if what == 'nside':
        return m.nside, m.is_healpix, m.npix
    if what == 'lmax':
        return m.get_lmax()
    if what == 'theta':
        return s.theta
    if what == 'phi0':
        return s.phi0
    if what == 'nphi':
        return s.nphi
    if what == 'offsets':
        return s.offsets
    if what == 'weight':
        return s.weight
    if what == 'nring':
        return s.nring
    if what == 'edges':
        return m.theta_min, m.theta_max, m.d_theta, m.d_phi
    if what == 'flips':
        return int(m.flip_th), int(m.flip_ph)
    return m.nx, m.ny


def R_info(w, shape, what):
    r = rinfo(w, shape)
    if what == 'nside':
        return r['nside'], r['is_healpix'], r['npix']
    if what == 'offsets':
        return rings(r)
    if what == 'edges':
        return r['theta_min'], r['theta_max'], r['d_theta'], r['d_phi']
    if what == 'flips':
        return int(r['flip_th']), int(r['flip_ph'])
    if what == 'shape':
        return r['nx'], r['ny']
    return r[what]


def L_reform(w, shape, m):
    return info(w, shape).reform_map(m)


def reform(w, m):
    if w is None:
        return m
    if w.ddec > 0:
        m = m[..., ::-1, :]
    if w.dra < 0:
        m = m[..., ::-1]
    return m.reshape(m.shape[:-2] + (m.shape[-2] * m.shape[-1],))


def R_reform(w, shape, m):
    rinfo(w, shape)
    k = len(shape)
    if m.shape[len(m.shape) - k:] != shape:
        raise ValueError
    return reform(w, m)


def L_dot(w, shape, m1, m2):
    i = info(w, shape)
    return i.si.dot_map(i.reform_map(m1), i.reform_map(m2))


def R_dot(w, shape, m1, m2):
    """quadrature of the product over the sphere"""
    r = rinfo(w, shape)
    a = reform(w, m1)
    b = reform(w, m2)
    if w is None:
        return np.sum(a * b) * r['weight']
    s = 0
    for c in range(len(a)):
        for i in range(r['nring']):
            for j in range(r['nx']):
                s = s + a[c, i * r['nx'] + j] * b[c, i * r['nx'] + j] * r['weight'][i]
    return s


def L_map2alm(w, shape, m, spin, lmax, n_iter, calc):
    ut.set_sht_calculator(calc)
    return ut.map2alm(m, spin, info(w, shape), ut.NmtAlmInfo(lmax), n_iter=n_iter)


def adjoint(r, w, m, spin, lmax, calc):
    ms = mstart(lmax)
    if calc == 'ducc':
        if w is None:
            wm = m * r['weight']
        else:
            wm = np.array([[x[i * r['nfull'] + j] * r['weight'][i] for i in range(r['nring'])
                            for j in range(r['nfull'])] for x in m])
        return ducc0.sht.experimental.adjoint_synthesis(
            map=wm, spin=spin, theta=r['theta'], nphi=r['nphi'], phi0=r['phi0'], ringstart=rings(r),
            lmax=lmax, mmax=lmax, mstart=ms, nthreads=0)
    if w is not None:
        raise ValueError
    if spin == 0:
        return np.array([hp.map2alm(m[0], iter=0, lmax=lmax, mmax=lmax)])
    return np.array(hp.map2alm_spin(m, spin, lmax=lmax, mmax=lmax))


def synth(r, w, a, spin, lmax, calc):
    if calc == 'ducc':
        return ducc0.sht.experimental.synthesis(
            alm=a, spin=spin, theta=r['theta'], nphi=r['nphi'], phi0=r['phi0'], ringstart=rings(r),
            lmax=lmax, mmax=lmax, mstart=mstart(lmax), nthreads=0)
    if w is not None:
        raise ValueError
    if spin == 0:
        return np.array([hp.alm2map(a[0], nside=r['nside'], lmax=lmax, mmax=lmax)])
    return np.array(hp.alm2map_spin(a, r['nside'], spin, lmax=lmax, mmax=lmax))


def mstart(lmax):
    m = np.arange(lmax + 1)
    return m * (2 * lmax + 1 - m) // 2


def pad(r, m):
    """rings completed with zeros"""
    out = []
    for x in m:
        row = []
        for i in range(r['nring']):
            for j in range(r['nfull']):
                row.append(x[i * r['nx'] + j] if j < r['nx'] else 0.)
        out.append(row)
    return np.array(out)


def R_map2alm(w, shape, m, spin, lmax, n_iter, calc):
    """Jacobi iterations: the residual of the synthesised map corrects the coefficients"""
    r = rinfo(w, shape)
    if w is not None:
        m = pad(r, m)
    a = adjoint(r, w, m, spin, lmax, calc)
    for k in range(n_iter):
        a = a - adjoint(r, w, synth(r, w, a, spin, lmax, calc) - m, spin, lmax, calc)
    return a


def L_alm2map(w, shape, a, spin, lmax, calc):
    ut.set_sht_calculator(calc)
    return ut.alm2map(a, spin, info(w, shape), ut.NmtAlmInfo(lmax))


def R_alm2map(w, shape, a, spin, lmax, calc):
    r = rinfo(w, shape)
    m = synth(r, w, a, spin, lmax, calc)
    if w is None:
        return m
    return np.array([[x[i * r['nfull'] + j] for i in range(r['nring']) for j in range(r['nx'])]
                     for x in m])


def L_alminfo(lmax):
    a = ut.NmtAlmInfo(lmax)
    return a.lmax, a.mmax, a.mstart, a.nelem


def R_alminfo(lmax):
    return lmax, lmax, mstart(lmax), ((lmax + 1) * (lmax + 2)) // 2


def L_same(w1, s1, w2, s2, exact, l1, l2, m1, m2):
    f = nmt.NmtField(np.ones(s1), None, spin=0, wcs=w1, lmax=l1, lmax_mask=m1)
    g = nmt.NmtField(np.ones(s2), None, spin=0, wcs=w2, lmax=l2, lmax_mask=m2)
    return int(f.is_compatible(g, strict=exact))


def R_same(w1, s1, w2, s2, exact, l1, l2, m1, m2):
    r = rinfo(w1, s1)
    q = rinfo(w2, s2)
    if l1 != l2 or m1 != m2:
        return 0
    if exact:
        if r['is_healpix'] != q['is_healpix']:
            return 0
        if r['is_healpix']:
            return int(r['nside'] == q['nside'])
        for k in ('nx', 'ny', 'd_theta', 'd_phi', 'theta_min'):
            if r[k] != q[k]:
                return 0
        if r['phi0'][0] != q['phi0'][0]:
            return 0
    return 1


# ---------------------------------------------------------------- apodization
def L_apo(m, size, typ):
    return nmt.mask_apodization(m, size, apotype=typ)


def R_apo(m, size, typ):
    a = lib.apomask(m, len(m), size, typ)
    if typ in ('C1', 'C2'):
        return a
    if typ != 'Smooth':
        raise ValueError
    i = ut.NmtMapInfo(None, m.shape)
    lmax = 3 * i.nside - 1
    ai = ut.NmtAlmInfo(lmax)
    l = np.arange(lmax + 1)
    s = size * np.pi / 180.
    b = np.exp(-l * (l + 1) * s * s / 2)
    x = hp.almxfl(ut.map2alm(np.array([a]), 0, i, ai, n_iter=3)[0], b, mmax=lmax)
    return ut.alm2map(np.array([x]), 0, i, ai)[0] * m


def L_apo_flat(m, lx, ly, size, typ):
    return nmt.mask_apodization_flat(m, lx, ly, size, apotype=typ)


def R_apo_flat(m, lx, ly, size, typ):
    ny, nx = m.shape
    return np.reshape(lib.apomask_flat(nx, ny, lx, ly, m.flatten(), nx * ny, size, typ), [ny, nx])


# ---------------------------------------------------------------- simulations
def beams(spins, beam):
    return [beam[k] for k in range(len(spins)) for i in range(2 if spins[k] else 1)]


def L_sim(w, nside, cls, spins, beam, seed, lmax):
    return nmt.synfast_spherical(nside, cls, spins, beam=beam, seed=seed, wcs=w, lmax=lmax)


def R_sim(w, nside, cls, spins, beam, seed, lmax):
    if w is None:
        shape = [12 * nside * nside]
    else:
        shape = [int(180. / abs(w.ddec) + 0.5) + 1, int(360. / abs(w.dra) + 0.5)]
    i = ut.NmtMapInfo(w, shape)
    n = sum([2 if s else 1 for s in spins])
    if len(cls) != n * (n + 1) // 2:
        raise ValueError
    if lmax is None:
        lmax = i.get_lmax()
    lmax = min(len(cls[0]) - 1, lmax)
    ai = ut.NmtAlmInfo(lmax)
    np.random.seed(seed)
    alm = hp.synalm(cls, lmax=lmax, mmax=lmax, new=False)
    if beam is not None:
        if len(beam) != len(spins) or len(beam[0]) < lmax + 1:
            raise ValueError
        b = beams(spins, beam)
        alm = [hp.almxfl(alm[k], b[k], mmax=lmax) for k in range(n)]
    out = []
    k = 0
    for s in spins:
        c = 2 if s else 1
        for m in ut.alm2map(np.array([alm[k + q] for q in range(c)]), s, i, ai):
            if w is not None:
                m = m.reshape(shape)
                if w.ddec > 0:
                    m = m[::-1]
                if w.dra < 0:
                    m = m[:, ::-1]
            out.append(m)
        k = k + c
    return np.array(out)


def L_sim_flat(nx, ny, lx, ly, cls, spins, beam, seed):
    return nmt.synfast_flat(nx, ny, lx, ly, cls, spins, beam=beam, seed=seed)


def R_sim_flat(nx, ny, lx, ly, cls, spins, beam, seed):
    n = sum([2 if s else 1 for s in spins])
    if len(cls) != n * (n + 1) // 2:
        raise ValueError
    nl = len(cls[0])
    if beam is None:
        beam = np.ones([len(spins), nl])
    elif len(beam) != len(spins) or len(beam[0]) != nl:
        raise ValueError
    return np.reshape(lib.synfast_new_flat(nx, ny, lx, ly, np.array(spins), seed, cls, beam,
                                           n * ny * nx), [n, ny, nx])


# ---------------------------------------------------------------- parameters
def L_params(calc, n1, n2, tol):
    ut.set_sht_calculator(calc)
    ut.set_n_iter_default(n1)
    ut.set_n_iter_default(n2, mask=True)
    ut.set_tol_pinv_default(tol)
    return ut.get_default_params()


def R_params(calc, n1, n2, tol):
    if calc not in ('ducc', 'healpy'):
        raise ValueError
    if n1 < 0 or n2 < 0:
        raise ValueError
    if tol < 0 or tol > 1:
        raise ValueError
    return {'sht_calculator': calc, 'n_iter_default': n1, 'n_iter_mask_default': n2,
            'tol_pinv_default': tol}


def L_pinvh(m, tol):
    return ut.moore_penrose_pinvh(m, tol)


def R_pinvh(m, tol):
    if tol <= 0:
        return np.linalg.inv(m)
    w, v = np.linalg.eigh(m)
    big = w >= tol * np.max(w)
    d = np.where(big, 1. / np.where(big, w, 1.), 0.)
    return np.einsum('ik,k,jk->ij', v, d, v)
