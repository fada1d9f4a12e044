"""Lemmas over the C sources.

A lemma is a pair of C functions in /verif/spec: L_x calls functions of /repo and
returns one (arbitrary) element of what they leave behind, R_x is the reference
formula for that element, P_x (optional) the range of the arguments for which it
is claimed.  Nothing is compiled or executed: the value-flow summaries (ceval) of
L_x and R_x are reduced to two terms and the terms are compared by value
numbering / random interpretation.  Three outcomes: equal, different, undecided.
"""
import itertools
import math
from . import cfront
from . import terms as T
from .terms import *   # noqa
from .terms import refn, minmax
from .ceval import CEval

BAD = ('carried', 'maybe', 'part')


def vocabulary(t):
    """Names of uninterpreted functions and the unresolved atoms of a term."""
    v, un = set(), set()
    for x in T.subterms(t):
        if x.op == 'fn':
            v.add(x.args[0])
            if x.args[0] in ('undef', 'lvpart') or x.args[0][0] == '?':
                un.add(x.args[0])
        elif x.op == 'load':
            tag = x.args[2]
            if tag:
                un.add(tag)
            b = x.args[0]
            if b.op == 'obj' and b.args[0] in ('res', 'out', 'gated', 'alloc'):
                un.add('obj:%s' % b.args[0])
        elif x.op == 'sym' and '#' in x.args[0]:
            un.add(x.args[0])
    return v, un


def LU_decomp(ev, args, n):
    ev.emit('call', n, fn='gsl_linalg_LU_decomp', args=list(args))
    if len(args) > 2:
        ev.havoc(args[2], 'LUsign', n, ())
    return ZERO


def _name(p):
    return p


def LU_solve(ev, args, n):
    """x = A^-1 b written with an opaque inverse (the factorised matrix is a name)"""
    ev.emit('call', n, fn='gsl_linalg_LU_solve', args=list(args))
    A, p, b, x = args[:4]
    sz = vecsize(ev, b)
    if sz is None:
        return NotImplemented
    L = T.Loop(ZERO, sz, ev.frames[-1].func.file, n.line, 'lu')
    K = T.Loop(ZERO, sz, ev.frames[-1].func.file, n.line, 'luk')
    ev.loops += [L, K]
    try:
        bv = ev.load_g(ev.gslloc(b, [K.sym]), 'double', n)
        ev.loops.pop()
        v = T.sum_(K, TRUE, mul(fn('inverse', (matname(ev, A), L.sym, K.sym)), bv))
        ev.store_g(ev.gslloc(x, [L.sym]), v, n)
    finally:
        ev.loops.pop()
    return ZERO


def LU_invert(ev, args, n):
    ev.emit('call', n, fn='gsl_linalg_LU_invert', args=list(args))
    A, p, inv_ = args[:3]
    L = T.Loop(ZERO, sym('INF', True), ev.frames[-1].func.file, n.line, 'iv')
    sz = matsize(ev, inv_)
    if sz is None:
        return NotImplemented
    L = T.Loop(ZERO, sz[0], ev.frames[-1].func.file, n.line, 'iv')
    K = T.Loop(ZERO, sz[1], ev.frames[-1].func.file, n.line, 'ivk')
    ev.loops.append(L)
    ev.loops.append(K)
    try:
        ev.store_g(ev.gslloc(inv_, [L.sym, K.sym]),
                   fn('inverse', (matname(ev, A), L.sym, K.sym)), n)
    finally:
        ev.loops.pop()
        ev.loops.pop()
    return ZERO


def matname(ev, A):
    return A if A.op in ('ptr',) else A


def alloc_args(ev, p):
    if p.op != 'ptr':
        return None
    return getattr(ev, 'allocinfo', {}).get(p.args[0])


def vecsize(ev, v):
    a = alloc_args(ev, v)
    return a[1][0] if a else None


def matsize(ev, m):
    a = alloc_args(ev, m)
    return a[1][:2] if a else None


TRANS = {111: False, 112: True, 'CblasNoTrans': False, 'CblasTrans': True}


def transposed(t):
    if t.op == 'sym':
        return TRANS.get(t.args[0])
    return TRANS.get(T.ival(t))


def dgemm(ev, args, n):
    """C = alpha op(A) op(B) + beta C"""
    ev.emit('call', n, fn='gsl_blas_dgemm', args=list(args))
    ta, tb, al, A, B, be, C = args[:7]
    ta, tb = transposed(ta), transposed(tb)
    if ta is None or tb is None:
        return NotImplemented
    sc, sa = matsize(ev, C), matsize(ev, A)
    sb_ = matsize(ev, B)
    inner = None
    if sa is not None:
        inner = sa[0] if ta else sa[1]
    elif sb_ is not None:
        inner = sb_[1] if tb else sb_[0]
    if sc is None or inner is None:
        return NotImplemented
    f = ev.frames[-1].func.file
    I, J, K = (T.Loop(ZERO, s, f, n.line, 'dg%d' % k) for k, s in enumerate((sc[0], sc[1], inner)))
    ev.loops += [I, J]
    try:
        ev.loops.append(K)
        a = ev.load_g(ev.gslloc(A, [K.sym, I.sym] if ta else [I.sym, K.sym]), 'double', n)
        b = ev.load_g(ev.gslloc(B, [J.sym, K.sym] if tb else [K.sym, J.sym]), 'double', n)
        ev.loops.pop()
        v = mul(al, T.sum_(K, TRUE, mul(a, b)))
        if be is not ZERO:
            v = add(v, mul(be, ev.load_g(ev.gslloc(C, [I.sym, J.sym]), 'double', n)))
        ev.store_g(ev.gslloc(C, [I.sym, J.sym]), v, n)
    finally:
        ev.loops.pop()
        ev.loops.pop()
    return ZERO


def dgemv(ev, args, n):
    ev.emit('call', n, fn='gsl_blas_dgemv', args=list(args))
    ta, al, A, x, be, y = args[:6]
    ta = transposed(ta)
    if ta is None:
        return NotImplemented
    sy, sx = vecsize(ev, y), vecsize(ev, x)
    if sy is None or sx is None:
        return NotImplemented
    ki, kk = T.ival(sy), T.ival(sx)
    if ki is not None and kk is not None and ki <= 6 and kk <= 6:
        out = []
        for i in range(ki):
            v = ZERO
            for k in range(kk):
                a = ev.load_g(ev.gslloc(A, [num(k), num(i)] if ta else [num(i), num(k)]), 'double', n)
                v = add(v, mul(al, a, ev.load_g(ev.gslloc(x, [num(k)]), 'double', n)))
            if be is not ZERO:
                v = add(v, mul(be, ev.load_g(ev.gslloc(y, [num(i)]), 'double', n)))
            out.append(v)
        for i, v in enumerate(out):
            ev.store_g(ev.gslloc(y, [num(i)]), v, n)
        return ZERO
    f = ev.frames[-1].func.file
    I, K = (T.Loop(ZERO, s, f, n.line, 'gv%d' % k) for k, s in enumerate((sy, sx)))
    ev.loops.append(I)
    try:
        ev.loops.append(K)
        a = ev.load_g(ev.gslloc(A, [K.sym, I.sym] if ta else [I.sym, K.sym]), 'double', n)
        b = ev.load_g(ev.gslloc(x, [K.sym]), 'double', n)
        ev.loops.pop()
        v = mul(al, T.sum_(K, TRUE, mul(a, b)))
        if be is not ZERO:
            v = add(v, mul(be, ev.load_g(ev.gslloc(y, [I.sym]), 'double', n)))
        ev.store_g(ev.gslloc(y, [I.sym]), v, n)
    finally:
        ev.loops.pop()
    return ZERO


def w3j(ev, args, n):
    """Wigner 3j symbols are a function of (l2, l3, m2, m3); for m3 = -m2 they are
    symmetric in (l2, l3), and drc3jj_000 is the m = 0 case."""
    if len(args) == 8:
        l2, l3, m2, m3, lmin, lmax, out = args[:7]
    else:
        l2, l3, lmin, lmax, _, out = args[:6]
        m2 = m3 = ZERO
    ev.emit('call', n, fn='drc3jj', args=list(args))
    if add(m2, m3) is ZERO:
        key = (minmax('min', l2, l3), minmax('max', l2, l3), refn('abs', (m2,), True))
        nm = 'w3j'
    else:
        key = (l2, l3, m2, m3)
        nm = 'w3jm'
    ev.havoc(lmin, nm + ':lmin', n, key)
    ev.havoc(lmax, nm + ':lmax', n, key)
    ev.havoc(out, nm, n, key)
    return ZERO


def content(ev, p, n, size=None):
    """the value of an arbitrary element of an array: a name of its contents"""
    x = sym('@x', True)
    old = ev.st.pc
    if size is not None:
        ev.st.pc = and_(old, T.le(ZERO, x), T.lt(x, size))
    try:
        v = ev.load_g(ev.deref(ev.padd(p, x)), 'double', n)
    finally:
        ev.st.pc = old
    if size is not None:
        m = {y: sym('@undef') for y in T.subterms(v) if y.op == 'fn' and y.args[0] == 'undef'}
        v = ite(and_(T.le(ZERO, x), T.lt(x, size)), subst(v, m) if m else v, ZERO)
    return v


def fssizes(ev, fs, n):
    """number of pixels and of half-plane modes of a flat patch"""
    b, s = ev.deref(fs)
    nx, ny = (ev.load_g((b, s + (('f', f),)), 'int', n) for f in ('nx', 'ny'))
    return mul(nx, ny), mul(ny, add(ONE, T.idiv(nx, num(2))))


def transform(tag):
    def model(ev, args, n):
        """Fourier transforms are a function of the spin, the component and the input"""
        fs, nt, spin, src, dst = args[:5]
        ev.emit('call', n, fn=tag, args=list(args))
        nt = T.ival(nt)
        sp = T.ival(spin)
        if nt is None or sp is None or nt > 3:
            return NotImplemented
        nm = nt * (2 if sp else 1)
        rd, wr = (src, dst)
        vals = []
        npix, nmodes = fssizes(ev, fs, n)
        for j in range(nm):
            q = ev.load_g(ev.deref(ev.padd(rd, num(j))), 'double *', n)
            if q.op != 'ptr':
                return NotImplemented
            vals.append(content(ev, q, n, npix))
        for j in range(nm):
            q = ev.load_g(ev.deref(ev.padd(wr, num(j))), 'double *', n)
            L = T.Loop(ZERO, nmodes, ev.frames[-1].func.file, n.line, 'dft')
            ev.loops.append(L)
            try:
                t = j // 2 * 2 if sp else j
                ev.store_g(ev.deref(ev.padd(q, L.sym)),
                           fn(tag, (spin, num(j - t), vals[t], vals[t + 1] if sp else ZERO, L.sym)),
                           n)
            finally:
                ev.loops.pop()
        return ZERO
    return model


def kfun(ev, args, n):
    ev.emit('call', n, fn='nmt_k_function_eval', args=list(args))
    return fn('kfun', (args[0], args[1]))


def kalloc(ev, args, n):
    """an interpolated function is determined by its nodes and values"""
    nk, ka, fa = args[:3]
    ev.emit('call', n, fn='nmt_k_function_alloc', args=list(args))
    p = [content(ev, x, n) if x.op == 'ptr' else x for x in (ka, fa)]
    return ptr(obj('kfunction', nk, *(p + list(args[3:6]))), (('i', ZERO),))


def kfree(ev, args, n):
    ev.emit('call', n, fn='nmt_k_function_free', args=list(args))
    return ZERO


def flatband(ev, args, n):
    """the bandpower of a wavenumber does not depend on the hint (decided by C21)"""
    ev.emit('call', n, fn='nmt_bins_flat_search_fast', args=list(args))
    return fn('flatband', (args[0], args[1]), True)


def fsinfo(ev, args, n):
    """geometry of a flat patch: the ring scheme (spacing, number of rings) is a parameter"""
    p = ev.alloc('malloc', [], n, 'nmt_flatsky_info_alloc')
    b, s = ev.deref(p)
    nx, ny, lx, ly = args[:4]
    for f, v in (('nx', nx), ('ny', ny), ('lx', lx), ('ly', ly), ('npix', mul(nx, ny)),
                 ('pixsize', div(mul(lx, ly), mul(nx, ny))), ('n_ell', sym('n_ell', True)),
                 ('dell', div(ONE, sym('i_dell'))), ('i_dell', sym('i_dell'))):
        ev.store((b, s + (('f', f),)), v, n)
    return p


def untransform(ev, args, n):
    """maps are a function of the spin, the component and the Fourier coefficients, which the
    transform may overwrite"""
    fs, nt, spin, dst, src = args[:5]
    ev.emit('call', n, fn='fs_alm2map', args=list(args))
    nt, sp = T.ival(nt), T.ival(spin)
    if nt is None or sp is None or nt > 3:
        return NotImplemented
    nm = nt * (2 if sp else 1)
    vals, qs = [], []
    npix, nmodes = fssizes(ev, fs, n)
    for j in range(nm):
        q = ev.load_g(ev.deref(ev.padd(src, num(j))), 'double *', n)
        if q.op != 'ptr':
            return NotImplemented
        qs.append(q)
        vals.append(content(ev, q, n, nmodes))
    for j in range(nm):
        q = ev.load_g(ev.deref(ev.padd(dst, num(j))), 'double *', n)
        t = j // 2 * 2 if sp else j
        for p, tag, size in ((q, 'idft', npix), (qs[j], 'idft:input', nmodes)):
            L = T.Loop(ZERO, size, ev.frames[-1].func.file, n.line, 'dft')
            ev.loops.append(L)
            try:
                ev.store_g(ev.deref(ev.padd(p, L.sym)),
                           fn(tag, (spin, num(j - t), vals[t], vals[t + 1] if sp else ZERO, L.sym)), n)
            finally:
                ev.loops.pop()
    return ZERO


def plan(tag):
    def model(ev, args, n):
        ev.emit('call', n, fn='fftw_plan_dft_%s_2d' % tag, args=list(args))
        return ptr(obj('plan', tag, *args[:4]), (('i', ZERO),))
    return model


def execute(ev, args, n):
    """the unnormalised transform of an array between real and half-plane representations"""
    ev.emit('call', n, fn='fftw_execute', args=list(args))
    p = args[0]
    b = p.args[0] if p.op == 'ptr' else None
    if b is None or b.op != 'obj' or b.args[0] != 'plan':
        return NotImplemented
    tag, n0, n1, src, dst = b.args[1:6]
    if src.op != 'ptr' or dst.op != 'ptr':
        return NotImplemented
    npix, nmodes = mul(n0, n1), mul(n0, add(ONE, T.idiv(n1, num(2))))
    rd, wr = (npix, nmodes) if tag == 'r2c' else (nmodes, npix)
    v = content(ev, src, n, rd)
    out = [(dst, 'fft:' + tag, wr)] + ([(src, 'fft:input', rd)] if tag == 'c2r' else [])
    for q, nm, size in out:
        L = T.Loop(ZERO, size, ev.frames[-1].func.file, n.line, 'fft')
        ev.loops.append(L)
        try:
            ev.store_g(ev.deref(ev.padd(q, L.sym)), fn(nm, (n0, n1, v, L.sym)), n)
        finally:
            ev.loops.pop()
    return ZERO


def pinv(ev, args, n):
    """the pseudo-inverse is a function of all the elements of a matrix and the tolerance"""
    M, tol = args[:2]
    ev.emit('call', n, fn='moore_penrose_pinv', args=list(args))
    sz = matsize(ev, M)
    k = T.ival(sz[0]) if sz is not None else None
    if k is None or k > 4:
        return NotImplemented
    el = [ev.load_g(ev.gslloc(M, [num(i), num(j)]), 'double', n) for i in range(k) for j in range(k)]
    for i in range(k):
        for j in range(k):
            ev.store_g(ev.gslloc(M, [num(i), num(j)]), fn('pinv', [tol, num(i), num(j)] + el), n)
    return ZERO


def eigen(ev, args, n):
    """eigenvalues and eigenvectors are functions of all the elements of a symmetric matrix"""
    M, val, vec = args[:3]
    ev.emit('call', n, fn='gsl_eigen_symmv', args=list(args))
    sz = matsize(ev, M)
    k = T.ival(sz[0]) if sz is not None else None
    if k is None or k > 6:
        return NotImplemented
    el = [ev.load_g(ev.gslloc(M, [num(i), num(j)]), 'double', n) for i in range(k) for j in range(k)]
    for i in range(k):
        ev.store_g(ev.gslloc(val, [num(i)]), fn('eigenvalue', [num(i)] + el), n)
        for j in range(k):
            ev.store_g(ev.gslloc(vec, [num(i), num(j)]), fn('eigenvector', [num(i), num(j)] + el), n)
    for i in range(k):
        for j in range(k):
            ev.store_g(ev.gslloc(M, [num(i), num(j)]), fn('eigen:input', [num(i), num(j)] + el), n)
    return ZERO


def gauss(ev, args, n):
    """independent draws, named by the iterations in which they are made"""
    ev.emit('call', n, fn='rng_gauss', args=list(args))
    k = [L.sym for L in ev.loops]
    ev.draws = getattr(ev, 'draws', {})
    c = ev.draws[tuple(k)] = ev.draws.get(tuple(k), -1) + 1
    for i, p in enumerate(args[1:3]):
        ev.store_g(ev.deref(p), fn('gauss', [num(i), num(c)] + k), n)
    return ZERO


from .fitsmodel import MODELS as FITS   # noqa
FLAT = {'nmt_flatsky_info_alloc': fsinfo, 'fs_map2alm': transform('dft'), 'fs_alm2map': untransform,
        'moore_penrose_pinv': pinv, 'gsl_eigen_symmv': eigen, 'rng_gauss': gauss, 'nmt_k_function_eval': kfun,
        'nmt_k_function_alloc': kalloc, 'nmt_k_function_free': kfree,
        'nmt_bins_flat_search_fast': flatband}
def pixvec(ev, args, n):
    ev.emit('call', n, fn='pix2vec_ring', args=list(args))
    for c in range(3):
        ev.store_g(ev.deref(ev.padd(args[2], num(c))), fn('pixvec', (args[0], args[1], num(c))), n)
    return ZERO


def disc(scale=None):
    """pixels in a disc: for a function of the distance that is one beyond `scale`, every radius
    from there on is as good"""
    def model(ev, args, n):
        nside, cth, phi, r, lst, cnt, inc = args[:7]
        ev.emit('call', n, fn='he_query_disc', args=list(args))
        if scale is not None:
            k = T.cval(div(r, scale))
            if k is not None and k >= 1 - 1e-9:
                r = scale
        key = (nside, cth, phi, r, inc)
        ev.store_g(ev.deref(cnt), fn('disclen', key, True), n)
        L = T.Loop(ZERO, fn('disclen', key, True), ev.frames[-1].func.file, n.line, 'disc')
        ev.loops.append(L)
        try:
            ev.store_g(ev.deref(ev.padd(lst, L.sym)), fn('disc', key + (L.sym,), True), n)
        finally:
            ev.loops.pop()
        return ZERO
    return model


SPH = {'pix2vec_ring': pixvec, 'he_query_disc': disc()}
SPHC = {'pix2vec_ring': pixvec, 'he_query_disc': disc(mul(sym('size'), num(math.pi / 180)))}
# the transforms themselves, over the plain discrete Fourier transform
FFT = {'nmt_flatsky_info_alloc': fsinfo, 'fftw_plan_dft_r2c_2d': plan('r2c'),
       'fftw_plan_dft_c2r_2d': plan('c2r'), 'fftw_execute': execute, 'fftw_destroy_plan': kfree}
MODELS = {'drc3jj': w3j, 'drc3jj_000': w3j, 'gsl_linalg_LU_decomp': LU_decomp, 'gsl_linalg_LU_solve': LU_solve,
          'gsl_linalg_LU_invert': LU_invert, 'gsl_blas_dgemm': dgemm, 'gsl_blas_dgemv': dgemv}
# values with a definite meaning, whatever the reference mentions
KNOWN = {'sqrt', 'abs', 'parity', 'pow', 'exp', 'toint', 'creal', 'cimag', 'dft', 'idft', 'idft:input', 'pinv',
         'eigenvalue', 'eigenvector', 'pixvec', 'disc', 'disclen', 'sin', 'cos', 'atan2', 'fft:r2c', 'fft:c2r', 'fft:input', 'flatband', 'kfun',
         'float32', 'narrow', 'reinterpret'}
OPAQUE = ('moore_penrose_pinv',)


class Result(object):
    def __init__(self, status, msg='', ev=None, lhs=None, rhs=None, points=0):
        self.status, self.msg, self.ev, self.lhs, self.rhs, self.points = \
            status, msg, ev, lhs, rhs, points


def value(P, fname, args, opaque=OPAQUE, models=MODELS, init=None, pc=TRUE, strict=False):
    ev = CEval(P, opaque=opaque, models=models)
    ev.keep_undef = strict
    r = ev.run(fname, args, init, pc=pc)
    return ev, r


def simple(t):
    """The conjuncts of a precondition that are plain comparisons."""
    return and_(*[c for c in T.conj(t) if not any(x.op in ('sum', 'ite', 'or') for x in T.subterms(c))])


def sites(ev, spec=cfront.SPEC):
    """Where /repo's functions store the values the lemma reads."""
    out = []
    for e in ev.effects:
        if e.kind == 'store' and e.file and not e.file.startswith(spec):
            w = e.where()
            if w not in out:
                out.append(w)
    return out


def gridpoints(grid):
    if not grid:
        return [{}]
    ks = sorted(grid)
    return [dict(zip(ks, v)) for v in itertools.product(*(grid[k] for k in ks))]


def shapes(s):
    """Well-formed small inputs: bandpowers list multipoles in [0, lmax]."""
    lm = 2 + s % 3
    f = 2 + (s // 3) % 2
    return {'lmax': (lm, lm), 'lmax_fields': (lm + (s // 2) % 2,) * 2, 'lmax_mask': (lm + f, lm + f),
            'ell_max': (lm, lm), 'ell_list': (0, lm), 'nell_list': (1, 2), 'n_bands': (2, 3),
            'ncls': (1, 4), 'norm_type': (0, 1), 'spin1': (0, 3), 'spin2': (0, 3), 'spin0_only': (0, 1),
            'a': (0, 3), 'b': (0, 3), 'i': (0, 3), 'j': (0, 3), 'c': (0, 3), 'd': (0, 3),
            'l': (0, 4), 'm': (0, 4), 'nx': (2, 3 + s % 2), 'ny': (2, 3 + s // 2 % 2),
            'flatband': (-1, 2), 'lx': (3., 9.), 'ly': (3., 9.), 'lxa': (-1., 1.),
            'lxb': (0., 2.), 'n_ell': (1, 3), 'i_dell': (0.3, 0.8), 'lya': (-1., 1.), 'lyb': (0., 2.)}


def decide(P, name, config=None, grid=None, opaque=OPAQUE, models=MODELS, n=8, rng=(1, 4), pre=None,
           lhs=None, rhs=None, ranges=shapes, multi=None, strict=False):
    """One lemma (returns a Result), or, with multi=[config, ...], one lemma read at several
    places: S_x leaves the state behind and V_x(S_x's value, parameters) reads it.

    strict: an element nobody stores is a definite (wrong) value, and the functions may not end
    in an error exit when the precondition holds."""
    cfg = {k: (num(v) if isinstance(v, int) else v) for k, v in (config or {}).items()}
    out = []
    evs = None
    for extra in (multi if multi is not None else [{}]):
        cx = dict(cfg)
        cx.update((k, num(v)) for k, v in extra.items())
        where = TRUE
        pf = pre or 'P_' + name
        if P.lookup(pf) is not None:
            _, where = value(P, pf, cx, opaque, models)
            where = T.truth(where)
        pc = simple(where)
        if multi is None:
            evl, a = value(P, lhs or 'L_' + name, cx, opaque, models, pc=pc, strict=strict)
        else:
            if evs is None:
                # conditions on the parameters that vary are not assumed
                pc0 = and_(*[x for x in T.conj(pc) if not any(
                    y.op == 'sym' and y.args[0] in extra for y in T.subterms(x))])
                evl, s = value(P, 'S_' + name, cfg, opaque, models, pc=pc0, strict=strict)
                evs = (evl, s)
                pcs = evl.st.pc
            evl, s = evs
            f = P.lookup('V_' + name)
            vals = [s] + [cx.get(p.name) if cx.get(p.name) is not None else evl.param(p)
                          for p in f.params[1:]]
            evl.frames = [evl.base_frame]
            evl.st.pc = and_(pcs, pc)
            a = evl.call_function(f, vals, None)
            evl.st.pc = pcs
        if multi is not None and P.lookup('W_' + name) is not None:
            # the reference is a formula over the state left behind
            f = P.lookup('W_' + name)
            vals = [s] + [cx.get(p.name) if cx.get(p.name) is not None else evl.param(p)
                          for p in f.params[1:]]
            evl.st.pc = and_(pcs, pc)
            b = evl.call_function(f, vals, None)
            evl.st.pc = pcs
        else:
            evr, b = value(P, rhs or 'R_' + name, cx, opaque, models, pc=pc)
        # paths that ended in an error exit are outside the lemma
        r = compare(evl, a, b, and_(where, evl.st.pc), grid, n, rng, ranges, strict)
        if strict and r.status != 'violation':
            r = total(evl, r, where, evl.st.pc, n, rng, ranges)
        out.append(r)
    return out if multi is not None else out[0]


def total(evl, r, where, pc, n, rng, ranges):
    """no error exit under the precondition"""
    have = T.conj(where)
    left = [c for c in T.conj(pc) if c not in have and not T.implies(where, c)]
    for c in left:
        v, un = vocabulary(c)
        if un or not v <= KNOWN:
            continue
        o, p = T.equiv(T.ite(c, ONE, ZERO), ONE, n=n, rng=rng, where=where, ranges=ranges)
        if o is False or c is FALSE:
            return Result('violation', 'ends in an error exit unless ' + T.show(c)[:200],
                          evl, r.lhs, r.rhs, p)
    if not evl.st.alive:
        return Result('violation', 'always ends in an error exit', evl, r.lhs, r.rhs, 0)
    return r


def solved(where):
    """equalities that fix an unresolved value"""
    m = {}
    for c in T.conj(where):
        if c.op != 'eq0':
            continue
        pl = T._poly(subst(c.args[0], m))
        for mo, k in pl.items():
            if len(mo) == 1 and mo[0][1] == 1 and abs(k) == 1 and mo[0][0].op == 'sym' and \
                    '#' in mo[0][0].args[0]:
                x = mo[0][0]
                rest = T._frompoly({q: -v / k for q, v in pl.items() if q != mo})
                if x not in T.free(rest):
                    m = {y: subst(t, {x: rest}) for y, t in m.items()}
                    m[x] = rest
                    break
    return m


def bandargs(t):
    return set(x.args[1][0] for x in T.subterms(t) if x.op == 'fn' and x.args[0] == 'flatband')


def compare(evl, a, b, where, grid, n, rng, ranges, strict=False):
    m = solved(where)
    if m:
        a, b, where = (subst(x, m) for x in (a, b, where))
    va, ua = vocabulary(a)
    vb, ub = vocabulary(b)
    ok, pts = True, 0
    at = None
    for g in gridpoints(grid):
        def rg(s, g=g):
            d = dict(ranges(s)) if callable(ranges) else dict(ranges or {})
            d.update((k, (v, v)) for k, v in g.items())
            return d
        o, p = T.equiv(a, b, n=n, rng=rng, where=where, ranges=rg)
        pts += p
        if o is False:
            ok, at = False, g
            break
        if o is None and not grid:
            ok = None
    if ok and not pts and a is not b:
        ok = None
    if ok:
        return Result('ok', '', evl, a, b, pts)
    if ok is None:
        return Result('undecided', 'no admissible interpretation found', evl, a, b, pts)
    if bandargs(a) != bandargs(b):
        return Result('undecided', 'bandpowers of another object', evl, a, b, pts)
    if strict:
        ua, ub, va = ua - {'undef'}, ub - {'undef'}, va - {'undef'}
    if ua or ub or not va <= (vb | KNOWN):
        return Result('undecided', 'unresolved values: %s' %
                      ', '.join(sorted(ua | ub | (va - vb)))[:300], evl, a, b, pts)
    return Result('violation', 'value differs from the reference' +
                  (' at %s' % at if at else ''), evl, a, b, pts)
