"""The Python lemmas: uses of the public interface with symbolic inputs, and how they are decided."""
from .pyinputs import *   # noqa
from .. import pylemma, lemma
from .. import terms as T
from ..pylemma import inarr, dim, intp, flt
from ..terms import num, lt, and_, or_, not_, TRUE, FALSE, ZERO
from ..pyeval import PyDict, PyList
from ..pylib import pick
from ..core import Ob, OK, BAD, UNK

PYLEMMA = ('a lemma pairs a use of the public Python interface with a reference; both are interpreted '
           'abstractly over the same symbolic inputs (arrays of arbitrary elements, native calls as '
           'uninterpreted operations) from the current source, and the returned values, the native '
           'calls and the conditions of a normal return are compared')


class Item(object):
    def __init__(self, key, name, mod, inp, pre=None, over=None, strict=True, ranges=None, tags=()):
        self.key, self.name, self.mod, self.inp, self.pre, self.over, self.strict, self.ranges = \
            key, name, 'spec.' + mod, inp, pre, over, strict, ranges
        self.tags = set(tags)


def frames(r):
    return sorted(q for q in r.run.I.visited if not q.startswith(('L_', 'R_'))) if r.run else []


def result(it, r, rule):
    data = {'functions': frames(r)[:40], 'points': r.points}
    where = ''
    if r.status == 'violation':
        for k, v in (('found', r.lhs), ('expected', r.rhs)):
            data[k] = (T.show(v) if isinstance(v, T.Term) else str(v))[:3000]
        es = [e for e in r.run.effects if e.kind in ('native', 'raise', 'ext', 'sht')]
        data['effects'] = [str(e)[:300] for e in es[-12:]]
        where = '; '.join(e.where for e in es[-2:])
    return Ob(it.key, {'ok': OK, 'violation': BAD, 'undecided': UNK}[r.status], where, r.msg, rule, data)


def force(I, v, memo=None):
    """the inputs of one run: every run has its own arrays, lists and dictionaries"""
    memo = {} if memo is None else memo
    if isinstance(v, (PyDict, PyList, pylemma.Arr)) and id(v) in memo:
        return memo[id(v)]
    if isinstance(v, PyDict):
        r = PyDict({k: force(I, x, memo) for k, x in v.items.items()})
    elif type(v) is PyList:
        r = PyList([force(I, x, memo) for x in v.items], v.kind, v.name)
        r.more = v.more
    elif type(v) is tuple:
        return tuple(force(I, x, memo) for x in v)
    elif isinstance(v, pylemma.Arr):
        b = v.buf
        r = v
        if v.imap is None:
            r = pylemma.Arr(pylemma.Buf(b.shape, b.fn, b.kind, b.name, b.dtype), v.shape)
    elif callable(v):
        return v(I)
    else:
        return v
    memo[id(v)] = r
    return r


def inputs(it):
    def go(I):
        memo = {}
        return {k: force(I, v, memo) for k, v in it.inp.items()}
    return go


def py_ob(P, it, rule):
    r = pylemma.decide(P, it.name, it.mod, inputs(it), overrides=it.over, pre=it.pre,
                       ranges=it.ranges or pylemma.ranges0, strictraise=it.strict)
    return result(it, r, rule)


def pyjobs(c, P, rule, items):
    for it in items:
        c.job(it.key, py_ob, P, it, rule)


SHT = pylemma.SHT


def plm(v):
    return positive('lmax', 'lmax_mask')


# ------------------------------------------------------------------ curved-sky fields
FIELDS = {
    's0': dict(), 's2': dict(spin=2), 's1': dict(spin=1), 'nospin2': dict(spin=2, sp=False),
    'nospin0': dict(sp=False),
    't0': dict(spin=0, nt=2), 't0given': dict(spin=0, nt=1, given=True),
    't2given': dict(spin=2, nt=1, given=True), 't2': dict(spin=2, nt=2),
    'pb': dict(spin=2, pb=True), 'pe': dict(spin=2, pe=True), 'pebgiven': dict(spin=2, pe=True, pb=True,
                                                                         given=True),
    'pet': dict(spin=2, pe=True, nt=1), 'pbtgiven': dict(spin=2, pb=True, nt=1, given=True),
    'given': dict(spin=0, given=True), 'beam': dict(spin=2, beam=True),
}


def fields():
    out = []

    def go(key, name, f, prm=None, tags=(), pre=plm):
        out.append(Item('field[%s].%s' % (key, name), name, 'py_field',
                        {'mask': f.items['mask'], 'maps': f.items['maps'], 'kw': f.items['kw'], 'prm': prm},
                        pre, SHT, tags=tags, ranges={'in:mask12': (0.0, 0.3)}))
    for k, c in FIELDS.items():
        for w in ('alms', 'maps', 'temp', 'mask', 'mask_alms', 'attrs', 'twice'):
            if w == 'temp' and not c.get('nt'):
                continue
            go(k, w, field('', **c), tags=['field'])
        go(k, 'order', field('', **c), tags=['getter'])
    # plate-carree maps
    w = {'wcs': car(**CARS['3x5']), 'shape': (3, 5)}
    for k, c in (('car,s0,t', dict(spin=0, nt=1)), ('car,s2', dict(spin=2)), ('car,pb', dict(spin=2, pb=True))):
        for x in ('alms', 'maps', 'mask'):
            go(k, x, field('', **dict(c, **w)), tags=['field', 'car'])
    # anisotropic masks
    for k, c in (('aniso2', dict(spin=2)), ('aniso1', dict(spin=1)), ('anisogiven', dict(spin=2, given=True))):
        for x in ('alms', 'maps', 'mask', 'mask_alms', 'amask', 'amask_alms', 'attrs'):
            go(k, x, field('', aniso=True, **c), tags=['field', 'aniso'])
        for e, o in (('', {}), (',lite', dict(lite=True))):
            go(k + e, 'aorder', field('', aniso=True, **dict(c, **o)), tags=['getter', 'aniso'])
    for k, c in (('aniso0', dict(spin=0)), ('anisopure', dict(spin=2, pb=True)), ('anisotemp', dict(spin=2, nt=1)),
                 ('aniso0mask', dict(spin=0, maps=False))):
        go(k, 'mask', field('', aniso=True, **c), tags=['reject'])
    for k in ('mask_22', 'mask_12'):
        f = field('', 2, aniso=True)
        del f.items['kw'].items[k]
        go('aniso,no ' + k, 'mask', f, tags=['reject'])
    go('s2', 'amask', field('', 2), tags=['getter'])
    go('s2', 'amask_alms', field('', 2), tags=['getter'])
    # light-weight and mask-only fields
    for k, c in (('lite', dict(spin=2, lite=True, nt=1)), ('lite,pure', dict(spin=2, lite=True, nt=1, pb=True)),
                 ('maskonly', dict(spin=2, maps=False)), ('maskonly0', dict(spin=0, maps=False)),
                 ('notemp', dict(spin=0))):
        for x in ('alms', 'maps', 'temp', 'mask', 'mask_alms', 'attrs', 'twice'):
            go(k, x, field('', **c), tags=['getter'])
    go('maskonly,nospin', 'mask', field('', 2, sp=False, maps=False), tags=['getter', 'reject'])
    # default parameters
    prm = PyDict({'n_iter': intp('d_iter'), 'n_iter_mask': intp('d_iter_mask'), 'tol_pinv': flt('d_tol')})
    for k, c in (('default', dict(spin=0, nt=1, n_iter=False, tol=False)),
                 ('default,pb', dict(spin=2, pb=True, nt=1, n_iter=False, tol=False)),
                 ('explicit', dict(spin=0, nt=1))):
        for x in ('alms', 'maps', 'mask_alms', 'attrs'):
            go(k, x, field('', **c), prm, tags=['default'])
    f = field('', 0, n_iter=False, tol=False)
    f.items['kw'].items.update({'lmax': None, 'lmax_mask': None})
    for x in ('alms', 'mask_alms', 'attrs'):
        go('default,lmax', x, f, prm, tags=['default'], pre=None)
    # rejections
    f = field('', 0)
    f.items['maps'] = inarr('maps', (2, NPIX))
    go('spin0 2maps', 'alms', f, tags=['reject'])
    f = field('', 2)
    f.items['maps'] = inarr('maps', (1, NPIX))
    go('spin2 1map', 'alms', f, tags=['reject'])
    f = field('', 2, sp=False)
    f.items['maps'] = inarr('maps', (3, NPIX))
    go('3maps', 'alms', f, tags=['reject'])
    f = field('', 2)
    f.items['maps'] = inarr('maps', (2, 192))
    go('other nside', 'alms', f, tags=['reject'])
    f = field('', 2, nt=1)
    f.items['kw'].items['templates'] = inarr('temp', (1, 1, NPIX))
    go('template comps', 'alms', f, tags=['reject'])
    f = field('', 2, nt=1)
    f.items['kw'].items['templates'] = inarr('temp', (1, 2, 192))
    go('template nside', 'alms', f, tags=['reject'])
    for s in (0, 1, 3):
        go('pure spin %d' % s, 'alms', field('', s, pb=True), tags=['reject'])
        go('pure e spin %d' % s, 'alms', field('', s, pe=True), tags=['reject'])
    go('beam', 'alms', field('', 0, beam=True), tags=['reject'])
    go('lmax', 'alms', field('', 0), tags=['reject'], pre=None)
    return out


def ws_items():
    out = []

    def go(key, name, tags=(), **inp):
        out.append(Item('ws.%s[%s]' % (name, key), name, 'py_ws', inp, plm, SHT, tags=tags,
                        ranges={'in:mask12a': (0.0, 0.3), 'in:mask12b': (0.0, 0.3)}))
    a, b = field('a', 0), field('b', 2, beam=True)
    kw = PyDict({})
    b2 = field('b', 2, lmax='lmax2', lmax_mask='lmax_mask2')
    go('0x2', 'pcl', ['order'], a=a, b=b)
    go('2x0', 'pcl', ['order'], a=b, b=a)
    go('2auto', 'pcl', ['order'], a=b, b=None)
    go('lmax', 'pcl', ['reject'], a=a, b=b2)
    for k, x, y in (('0x2', a, b), ('2x0', b, a), ('2auto', b, None)):
        for n in ('mcm', 'windows'):
            go(k, n, ['order', 'native'], a=x, b=y, bins=bins(), kw=kw)
    go('fkp,teb', 'mcm', ['native'], a=b, b=field('c', 2, pb=True), bins=bins(),
       kw=PyDict({'normalization': 'FKP', 'is_teb': TRUE}))
    go('toeplitz', 'mcm', ['native', 'reject'], a=a, b=b, bins=bins(),
       kw=PyDict({'l_toeplitz': intp('lt'), 'l_exact': intp('le'), 'dl_band': intp('dl')}))
    go('lmaxbins', 'mcm', ['reject'], a=a, b=b, bins=bins('', 'lmaxb'), kw=kw)
    go('lmax', 'mcm', ['reject'], a=a, b=b2, bins=bins(), kw=kw)
    cl = inarr('cl', (dim('nc'), dim('nl')))
    for k, x, y in (('0x2', a, b), ('2auto', b, None)):
        go(k, 'couple', ['order', 'native', 'reject'], a=x, b=y, bins=bins(), kw=kw, cl=cl)
        go(k, 'decouple', ['order', 'native', 'reject'], a=x, b=y, bins=bins(), kw=kw, cl=cl, bias=None,
           noise=None)
        go(k + ',bias', 'decouple', ['order', 'native', 'reject'], a=x, b=y, bins=bins(), kw=kw, cl=cl,
           bias=inarr('bias', (dim('nc1'), dim('nl1'))), noise=inarr('noise', (dim('nc2'), dim('nl2'))))
    go('0x2', 'update_beams', ['native', 'update', 'reject'], a=a, b=b, bins=bins(), kw=kw,
       b1=inarr('b1', (dim('b1'),)), b2=inarr('b2', (dim('b2'),)))
    go('0x2', 'update_bins', ['native', 'update', 'reject'], a=a, b=b, bins=bins(), kw=kw, bins2=bins('2'))
    go('lmax', 'update_bins', ['native', 'update', 'reject'], a=a, b=b, bins=bins(), kw=kw,
       bins2=bins('2', 'lmaxb'))
    go('0x2', 'update_mcm', ['native', 'update', 'reject'], a=a, b=b, bins=bins(), kw=kw,
       m=inarr('m', (dim('m'), dim('mm'))))
    go('0x2', 'write', ['native', 'io'], a=a, b=b, bins=bins(), kw=kw, fname='file.fits')
    go('full', 'read', ['native', 'io'], fname='file.fits', full=TRUE)
    go('short', 'read', ['native', 'io'], fname='file.fits', full=FALSE)
    m = inarr('m', (dim('m'), dim('mm')))
    for n in ('short', 'empty'):
        for x in ('mcm', 'windows', 'write', 'couple', 'beams', 'bins', 'matrix', 'decouple'):
            if n == 'short' and x == 'decouple':
                continue
            go(x, n, ['reject', 'state'], what=x, bins=bins(), b1=inarr('b1', (dim('b1'),)), cl=m)
    # (updating with a matrix of the right size only)
    go('2', 'again', ['native', 'state'], a=a, b=b, c=None, bins=bins(), kw=kw)
    go('2', 'reread', ['native', 'state', 'io'], a=a, b=b, bins=bins(), kw=kw)
    go('norm', 'mcm', ['native', 'reject'], a=a, b=b, bins=bins(), kw=PyDict({'normalization': 'foo'}))
    A, B = field('a', 2, aniso=True), field('b', 1, aniso=True)
    for k, x, y in (('aniso', A, B), ('aniso auto', A, None), ('aniso x iso', A, b), ('iso x aniso', a, B)):
        go(k, 'mcm', ['native', 'aniso', 'order'], a=x, b=y, bins=bins(), kw=kw)
    go('aniso,fkp', 'mcm', ['native', 'aniso'], a=A, b=B, bins=bins(), kw=PyDict({'normalization': 'FKP'}))
    go('aniso,toeplitz', 'mcm', ['reject'], a=A, b=B, bins=bins(), kw=PyDict(
        {'l_toeplitz': intp('lt'), 'l_exact': intp('le'), 'dl_band': intp('dl')}))
    # Toeplitz with purification
    for k, x, y in (('1', field('a', 2, pb=True), field('b', 2)), ('2', field('a', 2), field('b', 2, pe=True))):
        go('toeplitz,pure' + k, 'mcm', ['reject'], a=x, b=y, bins=bins(), kw=PyDict(
            {'l_toeplitz': intp('lt'), 'l_exact': intp('le'), 'dl_band': intp('dl')}))
    return out


def bias_items():
    out = []

    def go(key, name, tags=(), **inp):
        out.append(Item('bias.%s[%s]' % (name, key), name, 'py_bias', inp, plm, SHT, tags=tags))
    cl = inarr('cl', (dim('nc'), dim('nl')))
    A = [field('a', 0, nt=1), field('a', 0, nt=2), field('a', 2, nt=1, pb=True), field('a', 2, nt=1)]
    B = [field('b', 0), field('b', 2), field('b', 2, nt=2), field('b', 2, nt=1, pe=True)]
    for a, b in ((0, 0), (3, 1), (2, 2), (1, 3)):
        go('%dx%d' % (a, b), 'bias', ['order'], a=A[a], b=B[b], cl=cl, n_iter=intp('it'))
    go('b', 'bias', ['order'], a=B[0], b=A[1], cl=cl, n_iter=intp('it'))
    go('auto', 'bias', ['order'], a=A[1], b=None, cl=cl, n_iter=intp('it'))
    var = inarr('var', (48,))
    for k, a in enumerate(A):
        go('%d' % k, 'noise_bias', ['templates'], a=a, var=var, n_iter=intp('it'))
    go('notemp', 'noise_bias', [], a=B[0], var=var, n_iter=intp('it'))
    for k, f in (('e', field('a', 2, nt=1, pe=True)), ('eb', field('a', 2, nt=1, pe=True, pb=True)),
                 ('masked', field('a', 2, nt=1, pb=True, given=True))):
        go('pure ' + k, 'noise_bias', ['templates'], a=f, var=var, n_iter=intp('it'))
    no = inarr('noise', (dim('nc1'), dim('nl1')))
    N = dict(n_iter=False)
    D = [field('a', 2, nt=1, **N), field('a', 2, nt=1, pb=True, **N), field('b', 0, nt=1, **N)]
    for k in (0, 1):
        for f in D:
            f.items['kw'].items['n_iter_mask'] = intp('n_iter_mask')
        go('%d' % k, 'bias_default', ['default'], a=D[k], b=D[2], cl=cl, p=intp('p'), q=intp('q'))
        go('%d' % k, 'noise_bias_default', ['default'], a=D[k], var=var, p=intp('p'), q=intp('q'))
    go('var', 'noise_bias', ['reject'], a=A[0], var=inarr('var', (192,)), n_iter=intp('it'))
    go('lmax', 'bias', ['reject'], a=A[0], b=field('b', 0, nt=1, lmax='lmax2'), cl=cl, n_iter=intp('it'))
    go('lmax_mask', 'bias', ['reject'], a=A[0], b=field('b', 0, nt=1, lmax_mask='lmax_mask2'), cl=cl,
       n_iter=intp('it'))
    go('lmax', 'master', ['reject'], a=A[0], b=field('b', 2, lmax='lmax2'), bins=bins(), kw=PyDict({}),
       noise=None, guess=None)
    go('cross', 'master', ['order', 'native', 'reject'], a=A[0], b=B[1], bins=bins(), kw=PyDict({}), noise=None,
       guess=None)
    go('cross,noise', 'master', ['order', 'native', 'reject'], a=A[0], b=B[1], bins=bins(), kw=PyDict({}),
       noise=no, guess=cl)
    go('auto,noise', 'master', ['order', 'native', 'reject'], a=A[3], b=None, bins=bins(), kw=PyDict({}),
       noise=no, guess=cl)
    go('given', 'master', ['order', 'native', 'reject'], a=A[0], b=B[1], bins=bins(), kw=PyDict({}),
       noise=no, guess=None)
    return out


def cov_items():
    out = []

    def go(key, name, tags=(), **inp):
        out.append(Item('cov.%s[%s]' % (name, key), name, 'py_cov', inp, plm, SHT, tags=tags))
    A = [field('a', 0), field('b', 2), field('c', 2), field('d', 0)]
    X = field('b', 2, lmax='lmax2', lmax_mask='lmax_mask2')
    go('4', 'cw_write', ['native', 'io'], a1=A[0], a2=A[1], b1=A[2], b2=A[3], kw=PyDict({}), fname='f')
    go('auto', 'cw_write', ['native', 'io'], a1=A[0], a2=None, b1=None, b2=None, kw=PyDict(
        {'l_toeplitz': intp('lt'), 'l_exact': intp('le'), 'dl_band': intp('dl'), 'spin0_only': TRUE}),
        fname='f')
    for k in range(1, 4):
        F = [A[0], A[2], A[2], A[3]]
        F[k] = X
        go('lmax%d' % k, 'cw_write', ['reject'], a1=F[0], a2=F[1], b1=F[2], b2=F[3], kw=PyDict({}), fname='f')
    go('read', 'cw_read', ['native', 'io'], fname='f', force=TRUE, fname2='g')
    go('read0', 'cw_read', ['native', 'io'], fname='f', force=FALSE, fname2='g')
    c = [inarr('c%d' % i, (dim('n%d' % i), dim('l%d' % i))) for i in range(4)]
    s = tuple(num(x) for x in (0, 2, 2, 0))
    for co in (TRUE, FALSE):
        go('0220,%s' % T.show(co), 'gauss', ['native', 'order', 'reject'], a1=A[0], a2=A[1], b1=A[2], b2=A[3],
           bins=bins(), s=s, c=PyList(c), coupled=co, two=TRUE)
    go('aniso', 'cw_write', ['reject', 'aniso'], a1=A[0], a2=A[1], b1=field('c', 2, aniso=True), b2=A[3],
       kw=PyDict({}), fname='f')
    go('aniso4', 'cw_write', ['reject', 'aniso'], a1=A[0], a2=A[1], b1=A[2], b2=field('d', 2, aniso=True),
       kw=PyDict({}), fname='f')
    go('b1', 'cw_write', ['native'], a1=A[0], a2=A[1], b1=A[2], b2=None, kw=PyDict({}), fname='f')
    go('b2', 'cw_write', ['native'], a1=A[0], a2=A[1], b1=None, b2=A[3], kw=PyDict({}), fname='f')
    go('empty', 'cw_empty', ['reject', 'state'])
    go('short', 'gauss_short', ['reject', 'state'], cl=c[0])
    go('again', 'cw_again', ['native', 'state'], a1=A[0], a2=A[1], b1=A[2], b2=A[3], fname='f')
    go('spins', 'gauss', ['reject'], a1=A[0], a2=A[1], b1=A[2], b2=A[3], bins=bins(),
       s=tuple(num(x) for x in (0, 0, 2, 0)), c=PyList(c), coupled=FALSE, two=TRUE)
    go('0220,one', 'gauss', ['native', 'order', 'reject'], a1=A[0], a2=A[1], b1=A[2], b2=A[3], bins=bins(), s=s,
       c=PyList(c), coupled=FALSE, two=FALSE)
    return out


# ------------------------------------------------------------------ flat sky
def flat_items():
    out = []

    def go(key, name, tags=(), **inp):
        out.append(Item('flat.%s[%s]' % (name, key), name, 'py_flat', inp, None, SHT, tags=tags))
    F = [ffield('a', 0, beam=True), ffield('b', 2, nt=1, pb=True), ffield('c', 2, given=True),
         ffield('d', 0, lite=True), ffield('e', 2, maps=False), ffield('f', 0, ny='my', nx='mx'),
         ffield('g', 2, sp=False)]
    for i, f in enumerate(F):
        for n in ('maps', 'mask', 'templates', 'ells'):
            go('%d' % i, n, ['native', 'field'] + (['getter'] if i in (3, 4) else []), a=f)
    cx, cy = PyList([flt('x0'), flt('x1')]), PyList([flt('y0'), flt('y1')])
    cl = inarr('cl', (dim('nc'), dim('nl')))
    ells = inarr('ells', (dim('ne'),))
    no = inarr('no', (dim('n3'), dim('n4')))
    for k, f, g, t in (('0x2', F[0], F[1], []), ('2auto', F[1], None, []),
                       ('shape', F[0], F[5], ['reject'])):
        t = t + ['native', 'order', 'reject']
        go(k, 'pcl', t, a=f, b=g, bn=fbins(), cx=cx, cy=cy)
        go(k, 'write', t, a=f, b=g, bn=fbins(), cx=cx, cy=cy, teb=TRUE, fname='f')
        go(k, 'couple', t, a=f, b=g, bn=fbins(), cx=cx, cy=cy, cl=cl, ells=ells)
        go(k, 'decouple', t, a=f, b=g, bn=fbins(), cx=cx, cy=cy, cl=cl, bias=None, noise=None)
        go(k + ',bias', 'decouple', t, a=f, b=g, bn=fbins(), cx=cx, cy=cy, cl=cl,
           bias=inarr('b', (dim('n1'), dim('n2'))), noise=no)
        go(k, 'bias', t, a=f, b=g, bn=fbins(), ells=ells, cx=cx, cy=cy, cl=cl)
        go(k, 'master', t, a=f, b=g, bn=fbins(), noise=None, guess=None, ells=None, cx=cx, cy=cy, use=FALSE)
        go(k + ',use', 'master', t, a=f, b=g, bn=fbins(), noise=no, guess=cl, ells=ells, cx=cx, cy=cy, use=TRUE)
    tf = ffield('t', 2, nt=2, tol=False)
    go('default', 'tol', ['default', 'native'], a=tf, tol=flt('tol'))
    go('explicit', 'templates', ['default', 'native'], a=ffield('t', 2, nt=2))
    go('', 'cw_empty', ['reject', 'state'])
    for w in ('write', 'couple', 'decouple'):
        go(w, 'empty', ['reject', 'state'], what=w, cl=cl, ells=ells)
    bad = {'spin0 2maps': ffield('a', 0), 'spin2 1map': ffield('a', 2), '3maps': ffield('a', 2, sp=False),
           'temp comps': ffield('a', 2, nt=1), 'pure0': ffield('a', 0, pb=True), 'pure1': ffield('a', 1, pe=True),
           'puremask': ffield('a', 1, pe=True, maps=False), 'nospin': ffield('a', 2, maps=False, sp=False)}
    sh = (dim('ny'), dim('nx'))
    bad['spin0 2maps'].items['maps'] = inarr('maps', (2,) + sh)
    bad['spin2 1map'].items['maps'] = inarr('maps', (1,) + sh)
    bad['3maps'].items['maps'] = inarr('maps', (3,) + sh)
    bad['temp comps'].items['kw'].items['templates'] = inarr('temp', (1, 1) + sh)
    for k, f in bad.items():
        go(k, 'mask', ['reject'], a=f)
    go('', 'read', ['native', 'io'], fname='f', fname2='g')
    go('', 'cw_read', ['native', 'io'], fname='f', fname2='g')
    go('4', 'cw', ['native', 'io'], a1=F[0], a2=F[1], ba=fbins(), b1=F[2], b2=F[3], bb=fbins('2'), fname='f')
    go('shape', 'cw', ['native', 'io', 'reject'], a1=F[0], a2=F[5], ba=fbins(), b1=None, b2=None, bb=None,
       fname='f')
    c = [inarr('c%d' % i, (dim('n%d' % i), dim('l%d' % i))) for i in range(4)]
    go('0220', 'gauss', ['native', 'order', 'reject'], a1=F[0], a2=F[1], b1=F[2], b2=F[3], ba=fbins(),
       s=tuple(num(x) for x in (0, 2, 2, 0)), ells=ells, c=PyList(c), two=TRUE)
    go('0202', 'gauss', ['native', 'order', 'reject'], a1=F[0], a2=F[1], b1=F[2], b2=F[3], ba=fbins(),
       s=tuple(num(x) for x in (0, 2, 0, 2)), ells=ells, c=PyList(c), two=FALSE)
    return out


# ------------------------------------------------------------------ bandpowers
def bins_items():
    out = []

    def go(key, name, tags=(), pre=None, **inp):
        out.append(Item('bins.%s[%s]' % (name, key), name, 'py_bins', inp, pre, SHT, tags=list(tags) +
                        ['native']))
    b0 = bins()
    b1 = PyDict(dict(b0.items))
    for k in ('lmax', 'weights', 'f_ell'):
        b1.items[k] = None

    def p(v):
        return positive('lmax')
    for t, b in (('full', b0), ('bare', b1)):
        for w in ('n_bands', 'nell_list', 'ell_min', 'ell_max', 'ell_list', 'weight_list', 'lmax', 'eff'):
            go('%s.%s' % (t, w), 'get', pre=p, b=b, what=w, i=intp('i'))
        for d, c in (('2d', inarr('c', (dim('a'), dim('b')))), ('1d', inarr('c', (dim('a'),)))):
            go('%s.%s' % (t, d), 'bin_cell', ['order'], pre=p, b=b, cls=c)
            go('%s.%s' % (t, d), 'unbin_cell', ['order'], pre=p, b=b, cls=c)

    def q(v):
        return and_(lt(num(2), intp('lmax')), lt(ZERO, intp('nside')), lt(ZERO, intp('nlb')))
    for w in ('eff', 'lmax'):
        for d in (TRUE, FALSE):
            for n, f in (('', None), (',f_ell', inarr('f', (dim('f'),)))):
                k = '%s,dell=%s%s' % (w, T.show(d), n)
                go('nside,' + k, 'linear', pre=q, nside=intp('nside'), lmax=None, nlb=intp('nlb'), dell=d, f_ell=f,
                   what=w, i=intp('i'))
                go('lmax,' + k, 'linear', pre=q, nside=None, lmax=intp('lmax'), nlb=intp('nlb'), dell=d, f_ell=f,
                   what=w, i=intp('i'))
                a = inarr('ini', (3,), 'i8', content=lambda ix: pick([num(2), num(5), num(9)], ix[0]))
                e = inarr('end', (3,), 'i8', content=lambda ix: pick([num(4), num(9), num(12)], ix[0]))
                go('array,' + k, 'edges', ini=a, end=e, dell=d, f_ell=f, what=w, i=intp('i'))
                go('list,' + k, 'edges', ini=PyList([num(2), num(5)]), end=PyList([num(5), num(6)]), dell=d,
                   f_ell=f, what=w, i=intp('i'))
    fb = fbins()
    for w in ('n_bands', 'eff'):
        go(w, 'flat_get', ['flat'], b=fb, what=w)
    e = inarr('e', (dim('e'),))
    for d, c in (('2d', inarr('c', (dim('a'), dim('b')))), ('1d', inarr('c', (dim('a'),)))):
        go(d, 'flat_bin', ['flat', 'order'], b=fb, ells=e, cls=c)
        go(d, 'flat_unbin', ['flat', 'order'], b=fb, ells=e, cls=c)
    return out


# ------------------------------------------------------------------ catalogues
def cat_items():
    out = []

    def go(key, name, tags=(), **inp):
        rg = inp.pop('ranges', None)
        out.append(Item('cat.%s[%s]' % (name, key), name, 'py_cat', inp, plm, SHT, tags=tags, ranges=rg))
    C = {'flat': cat('a', flat=True), 's2lonlat': cat('b', nf=2, lonlat=True, beam=True),
         's2weighted': cat('c', spin=2, nf=2, weighted=True, lmax_mask='lmax_mask'),
         'mask': cat('d', spin=0, fld=False), 's1': cat('e', spin=1, nf=2), 'clus': clus('f'),
         'cluslonlat': clus('g', True)}
    for k, c in C.items():
        for w in ('Nw', 'Nf', 'alpha', 'beam', 'alm_mask', 'spin', 'nmaps', 'alm'):
            go('%s.%s' % (k, w), 'what', ['reject'] if w in ('alm', 'beam') else [], a=c, what=w)
    # what is rejected: positions outside the sphere, arrays of different lengths, short beams
    for k, lon, w in (('', False, 10.), ('lonlat', True, 600.)):
        rg = {'in:pos' + t: (-0.4 * w, 0.8 * w) for t in 'ry'}
        rg['in:randy'] = (-0.4 * w, 0.8 * w)
        go('range' + k, 'what', ['reject'], a=cat('r', spin=0, lonlat=lon), what='alm', ranges=rg)
        go('clusrange' + k, 'what', ['reject'], a=clus('y', lon), what='alm', ranges=rg)
    n = dim('src')
    for k, f in (('pos3', dict(pos=inarr('pos', (3, n)))), ('pos1d', dict(pos=inarr('pos', (n,)))),
                 ('posn', dict(pos=inarr('pos', (2, dim('n2'))))), ('wn', dict(w=inarr('w', (dim('n2'),)))),
                 ('fldn', dict(field=inarr('fld', (1, dim('n2'))))),
                 ('fld1d', dict(field=inarr('fld', (dim('n2'),)))),
                 ('fld2', dict(field=inarr('fld', (2, n)))), ('fld3', dict(field=inarr('fld', (3, n)))),
                 ('nospin', dict(field=None, kw=PyDict({})))):
        for w in ('alm', 'alm_mask'):
            d = cat('', spin=0, nsrc=n)
            d.items.update(f)
            go('%s.%s' % (k, w), 'what', ['reject'], a=d, what=w)
    d = cat('', spin=2, nsrc=n)
    go('spin2,1', 'what', ['reject'], a=d, what='alm')
    d = cat('', nf=3, nsrc=n)
    go('3 maps', 'what', ['reject'], a=d, what='alm')
    for k, f in (('pos3', dict(pos=inarr('pos', (3, n)))), ('posn', dict(pos=inarr('pos', (2, dim('n2'))))),
                 ('rand3', dict(rand=inarr('rand', (3, n)))),
                 ('randn', dict(rand=inarr('rand', (2, dim('n2'))))),
                 ('wn', dict(w=inarr('w', (dim('n2'),)))), ('wrandn', dict(wrand=inarr('wrand', (dim('n2'),))))):
        d = clus('')
        d.items.update(f)
        go('clus,' + k, 'what', ['reject'], a=d, what='alm')
    M = field('m', 2, lmax_mask='lmax')
    M0 = field('n', 0)
    for k, x, y in (('flat', C['flat'], None), ('s2', C['s2lonlat'], None), ('s2w', C['s2weighted'], None),
                    ('clus', C['clus'], None), ('cluslonlat', C['cluslonlat'], None),
                    ('flatxs2', C['flat'], C['s2lonlat']), ('s1xclus', C['s1'], C['clus']),
                    ('clusxclus', C['clus'], C['cluslonlat']), ('flatxmap', C['flat'], M),
                    ('mapxs2', M, C['s2lonlat']), ('mapxs2w', M0, C['s2weighted'])):
        go(k, 'pcl', ['order'], a=x, b=y)
        go(k, 'mcm', ['native'], a=x, b=y, bins=bins(), kw=PyDict({}))
    for k, x in C.items():
        go(k + ',fkp', 'mcm', ['native'], a=x, b=None, bins=bins(), kw=PyDict({'normalization': 'FKP'}))
    return out


# ------------------------------------------------------------------ pixelisations, transforms
def car(dra, ddec, ny, nx, y0, proj='CAR', x0=None, ra0='ra0'):
    def f(I):
        m = I.module('spec.py_utils')
        return I.call(m.vars['Car'], [num(dra), num(ddec), flt(ra0), flt('x0') if x0 is None else num(x0), num(y0),
                                      proj], {}, None)
    return f


CARS = {'7x12': dict(dra=-30, ddec=30, ny=7, nx=12, y0=4), '3x5': dict(dra=30, ddec=-30, ny=3, nx=5, y0=2),
        '3x4': dict(dra=-30, ddec=30, ny=3, nx=4, y0=3)}
HPX = {'2': 48, '4': 192}


def utils_items():
    out = []

    def go(key, name, tags=(), pre=None, over=None, **inp):
        out.append(Item('utils.%s[%s]' % (name, key), name, 'py_utils', inp, pre, over, tags=tags))
    W = ('nside', 'lmax', 'theta', 'phi0', 'nphi', 'offsets', 'weight', 'nring')
    for k, n in HPX.items():
        for w in W:
            go('nside%s.%s' % (k, w), 'info', ['geometry'], w=None, shape=(num(n),), what=w)
    go('badnpix', 'info', ['geometry'], w=None, shape=(num(50),), what='nside')
    bad = dict(CARS['7x12'], proj='TAN')
    go('tan', 'info', ['geometry'], w=car(**bad), shape=(num(7), num(12)), what='theta')
    for k, c in CARS.items():
        sh = (num(c['ny']), num(c['nx']))
        for w in W + ('edges', 'flips', 'shape'):
            go('%s.%s' % (k, w), 'info', ['geometry'], w=car(**c), shape=sh, what=w)
        m, m2 = inarr('m', (2, c['ny'], c['nx'])), inarr('m2', (2, c['ny'], c['nx']))
        go(k, 'reform', ['geometry'], w=car(**c), shape=sh, m=m)
        go(k, 'dot', ['geometry', 'dot'], w=car(**c), shape=sh, m1=m, m2=m2)
        go(k + '.wrong', 'reform', ['geometry', 'reject'], w=car(**c), shape=sh,
           m=inarr('m', (2, c['ny'] + 1, c['nx'])))
    go('nside2', 'reform', ['geometry'], w=None, shape=(num(48),), m=inarr('m', (2, 48)))
    go('nside2.wrong', 'reform', ['geometry', 'reject'], w=None, shape=(num(48),), m=inarr('m', (2, 192)))
    go('nside2', 'dot', ['geometry', 'dot'], w=None, shape=(num(48),), m1=inarr('m', (2, 48)),
       m2=inarr('m2', (2, 48)))

    def p(v):
        return positive('lmax')
    for k, c in list(CARS.items()) + [('nside2', None)]:
        if c:
            sh, w, m = (num(c['ny']), num(c['nx'])), car(**c), (lambda n, c=c: inarr('m', (n, c['ny'] * c['nx'])))
        else:
            sh, w, m = (num(48),), None, lambda n: inarr('m', (n, 48))
        for calc in ('ducc', 'healpy'):
            for spin in (0, 1, 2):
                for it in (0, 1, 2):
                    go('%s,%s,spin=%d,n_iter=%d' % (k, calc, spin, it), 'map2alm', ['sht'], pre=p, w=w, shape=sh,
                       m=m(2 if spin else 1), spin=num(spin), lmax=intp('lmax'), n_iter=num(it), calc=calc)
                go('%s,%s,spin=%d' % (k, calc, spin), 'alm2map', ['sht'], pre=p, w=w, shape=sh,
                   a=inarr('a', (2 if spin else 1, dim('nelem'))), spin=num(spin), lmax=intp('lmax'), calc=calc)
    go('', 'alminfo', ['sht'], pre=p, lmax=intp('lmax'))

    def pm(v):
        return positive('l1', 'l2', 'm1', 'm2')
    H, H2 = (None, (num(48),)), (None, (num(192),))
    C = [(car(**c), (num(c['ny']), num(c['nx']))) for c in CARS.values()]
    C3 = (car(dra=-30, ddec=30, ny=3, nx=4, y0=2), (num(3), num(4)))
    for st in (TRUE, FALSE):
        for k, x, y in (('hh', H, H), ('hh2', H, H2), ('hc', H, C[0]), ('ch', C[0], H), ('cc', C[0], C[0]),
                        ('cd', C[0], C[1]), ('ee', C[2], C[2]), ('ef', C[2], C3)):
            go('%s,strict=%s' % (k, T.show(st)), 'same', ['compat'], pre=pm, w1=x[0], s1=x[1], w2=y[0], s2=y[1],
               exact=st, l1=intp('l1'), l2=intp('l2'), m1=intp('m1'), m2=intp('m2'))
    # geometries that differ in one parameter
    base = dict(dra=30, ddec=-30, ny=3, nx=4, y0=2, x0=1)
    for k, e in (('dphi', dict(dra=60)), ('phi0', dict(ra0='ra1')), ('nx', dict(nx=5)), ('theta', dict(y0=3)),
                 ('ny', dict(ny=4)), ('dtheta', dict(ddec=-60, y0=1.5)), ('shape', dict(ny=4, nx=3)), ('none', {})):
        x, y = dict(base), dict(base, **e)
        for a, b in ((x, y), (y, x)):
            go('%s,%s' % (k, 'ab' if a is x else 'ba'), 'same', ['compat'], pre=pm, w1=car(**a),
               s1=(num(a['ny']), num(a['nx'])), w2=car(**b), s2=(num(b['ny']), num(b['nx'])), exact=TRUE,
               l1=intp('l1'), l2=intp('l1'), m1=intp('m1'), m2=intp('m1'))
    for t in ('C1', 'C2', 'Smooth', 'foo'):
        go(t, 'apo', ['apo'], over=SHT, m=inarr('m', (48,)), size=flt('s'), typ=t)
        go(t, 'apo_flat', ['apo', 'native'], m=inarr('m', (dim('ny'), dim('nx'))), lx=flt('lx'), ly=flt('ly'),
           size=flt('s'), typ=t)
    go('1d', 'apo_flat', ['apo', 'reject'], m=inarr('m', (dim('ny'),)), lx=flt('lx'), ly=flt('ly'),
       size=flt('s'), typ='C1')

    def cl(n):
        return inarr('cl', (n, dim('nl')))

    def bm(n):
        return inarr('bm', (n, dim('nb')))

    def ps(v):
        return positive('seed', 'lmax')

    def pf(v):
        return positive('seed')

    def pa(v):
        return positive('lmax')
    for ns, sp in ((1, (0,)), (3, (2,)), (6, (0, 2)), (5, (0, 2)), (10, (2, 1))):
        for bk, b in (('', None), (',beam', bm(len(sp))), (',badbeam', bm(len(sp) + 1))):
            k = '%d cls,spins=%s%s' % (ns, sp, bk)
            rej = ['reject'] if ns == 5 or bk == ',badbeam' else []
            spl = PyList([num(x) for x in sp])
            for wk, c in (('healpix', None), ('car', CARS['7x12'])):
                go('%s,%s' % (wk, k), 'sim', ['sim'] + rej, pre=ps, over=SHT, w=car(**c) if c else None,
                   nside=num(2), cls=cl(ns), spins=spl, beam=b, seed=intp('seed'),
                   lmax=intp('lmax') if b is None else None)
                if bk == '':
                    # without a seed, with seed zero and with any seed
                    for sk, sv in (('any', intp('seed')), ('zero', num(0)), ('none', num(-1))):
                        go('%s,%s,seed=%s' % (wk, k, sk), 'sim', ['sim'] if sk == 'zero' else ['seed'],
                           pre=pa, over=SHT, w=car(**c) if c else None, nside=num(2), cls=cl(ns), spins=spl,
                           beam=b, seed=sv, lmax=intp('lmax'))
                        if c is None:
                            go('%s,seed=%s' % (k, sk), 'sim_flat', ['sim', 'native'] if sk == 'zero' else ['seed'],
                               nx=intp('nx'), ny=intp('ny'), lx=flt('lx'), ly=flt('ly'), cls=cl(ns), spins=spl,
                               beam=b, seed=sv)
            go(k, 'sim_flat', ['sim', 'native'] + rej, pre=pf, nx=intp('nx'), ny=intp('ny'), lx=flt('lx'),
               ly=flt('ly'), cls=cl(ns), spins=spl, beam=b, seed=intp('seed'))
    for c in ('ducc', 'healpy', 'foo'):
        go(c, 'params', ['params'], calc=c, n1=intp('n1'), n2=intp('n2'), tol=flt('tol'))
    go('tol', 'pinvh', ['pinv'], m=inarr('m', (3, 3)), tol=flt('tol'))
    go('0', 'pinvh', ['pinv'], m=inarr('m', (3, 3)), tol=num(0))
    return out


def tagged(items, *tags):
    return [i for i in items if i.tags & set(tags)]


GROUPS = ('fields', 'ws_items', 'bias_items', 'cov_items', 'flat_items', 'bins_items', 'cat_items',
          'utils_items')


def allitems():
    return [i for g in GROUPS for i in globals()[g]()]


def pyrule(c, P, rule, text, items, floor=None):
    """Registers the lemmas of `items` (each once per check) under one rule."""
    seen = c.__dict__.setdefault('_pykeys', set())
    items = [i for i in items if i.key not in seen]
    seen.update(i.key for i in items)
    c.rule(rule, text + '; ' + PYLEMMA)
    pyjobs(c, P, rule, items)
    c.floor = (c.floor or 0) + max(1, len(items) // 2)
