"""Lemmas about the Python layer.

A lemma runs a use of the public interface (L_x) and a reference (R_x), both Python text that is
only ever parsed and interpreted abstractly on the same symbolic inputs, and compares the returned
values, the conditions under which they return normally, and the native operations without result
(files written, objects updated).  Anything unresolved makes the lemma undecided."""
import os
from . import cfront, wrapmap, pyeval
from . import terms as T
from .terms import num, sym, fn, eq, and_, or_, not_, ite, le, lt, TRUE, FALSE, ONE, ZERO, Term
from .pyeval import (Arr, Buf, PyList, PyDict, Inst, Handle, Opq, Ch, Builtin, Exc, UNSET, Interp, dimt,
                     ci, num_)

_w = {}


def wraps(P):
    if id(P) not in _w:
        _w[id(P)] = wrapmap.wrappers(P)
    return _w[id(P)]


def inarr(name, shape, dtype='f8', kind='caller', content=None):
    """an array of the caller: its elements are arbitrary"""
    shape = tuple(num(s) if isinstance(s, int) else s for s in shape)
    isint = dtype[0] in 'iu'
    f = content or ((lambda ix: fn('in:' + name, tuple(ix), isint)) if dtype != 'b1' else
                    (lambda ix: T.eq(fn('in:' + name, tuple(ix), True), ONE)))
    return Arr(Buf(shape, f, kind, name, dtype))


def dim(name):
    return sym('n:' + name, True)


def intp(name):
    return sym('in:' + name, True)


def flt(name):
    return sym('in:' + name)


def tup(*x):
    return tuple(x)


class Run(object):
    """one abstract execution"""

    def __init__(self, P, fname, mod, inputs, overrides=None, pre=None):
        self.I = I = Interp(prog=P, wraps=wraps(P), overrides=overrides)
        self.status = 'ok'
        self.value = None
        I.module('pymaster')
        I.effects_start = len(I.effects)
        m = I.module(mod)
        I.effects = I.effects[:0]
        f = m.vars.get(fname)
        if f is None:
            raise KeyError(fname)
        self.inputs = inputs(I) if callable(inputs) else inputs
        self.pre = TRUE
        if pre is not None:
            self.pre = T.truth(pre(self.inputs))
            I.pc = self.pre
        names = [a.arg for a in f.node.args.args]
        try:
            self.value = I.call(f, [], {k: v for k, v in self.inputs.items() if k in names}, f.node)
        except pyeval.Dead:
            I.pc = FALSE
        self.pc = I.pc
        self.effects = I.effects

    def raises(self):
        return [e for e in self.effects if e.kind == 'raise']

    def natives(self):
        return [e for e in self.effects if e.kind == 'native']


def vocab(t):
    names, un = set(), set()
    for x in T.subterms(t):
        if x.op in ('fn', 'rfn'):
            nm = x.args[0]
            if nm.startswith('?'):
                un.add(nm)
            elif nm == 'outofrange':
                un.add(nm)
            else:
                names.add(nm)
        elif x.op == 'sym' and x.args[0].startswith('?'):
            un.add(x.args[0])
    return names, un


class Mismatch(Exception):
    def __init__(self, path, a, b, why=''):
        self.path, self.a, self.b, self.why = path, a, b, why


class Und(Exception):
    def __init__(self, why):
        self.why = why


def leaves(I, J, a, b, path='result'):
    """pairs of terms to compare: (path, left, right)"""
    if a is b and not isinstance(a, (Arr, PyList, Ch)):
        return
    if isinstance(a, Opq) or isinstance(b, Opq):
        raise Und('%s: %s' % (path, a if isinstance(a, Opq) else b))
    if isinstance(a, PyList) and isinstance(b, (Arr, tuple)) or \
            isinstance(a, (Arr, tuple)) and isinstance(b, PyList):
        if isinstance(a, PyList) and isinstance(b, Arr):
            a = I.lib.toarr(a)
        elif isinstance(b, PyList) and isinstance(a, Arr):
            b = J.lib.toarr(b)
        elif isinstance(a, PyList):
            a = tuple(a.items)
        else:
            b = tuple(b.items)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.shape) != len(b.shape):
            raise Mismatch(path, a, b, 'number of dimensions %d, expected %d' % (
                len(a.shape), len(b.shape)))
        for k, (x, y) in enumerate(zip(a.shape, b.shape)):
            yield '%s.shape[%d]' % (path, k), dimt(x), dimt(y)
        ix = tuple(sym('@%d/%s' % (k, ci(dimt(d)) or 6), True) if ci(dimt(d)) is None or ci(dimt(d)) > 6 else None
                   for k, d in enumerate(a.shape))
        # small concrete axes are compared element by element
        todo = [()]
        for k, d in enumerate(a.shape):
            if ix[k] is not None:
                todo = [t + (ix[k],) for t in todo]
            else:
                todo = [t + (num(j),) for t in todo for j in range(ci(dimt(d)))]
        sa, sb = a.snap(), b.snap()
        for t in todo[:400]:
            p = '%s[%s]' % (path, ','.join(T.show(x) for x in t))
            g = and_(*[and_(le(ZERO, x), lt(x, dimt(d))) for x, d, y in zip(t, b.shape, ix)
                       if y is not None and not isinstance(d, pyeval.MDim)])
            u, w = num_(sa(t)), num_(sb(t))
            yield (p, u, w) if u is w else (p, ite(g, u, ZERO), ite(g, w, ZERO))
        return
    if isinstance(a, Term) and isinstance(b, Term):
        yield path, num_(a), num_(b)
        return
    if isinstance(a, Arr) and not a.shape and isinstance(b, Term):
        yield path, num_(a.at(())), num_(b)
        return
    if isinstance(b, Arr) and not b.shape and isinstance(a, Term):
        yield path, num_(a), num_(b.at(()))
        return
    if type(a) is tuple and type(b) is tuple or isinstance(a, PyList) and isinstance(b, PyList):
        x = a if type(a) is tuple else a.items
        y = b if type(b) is tuple else b.items
        if len(x) != len(y):
            if any(isinstance(q, Opq) for q in list(x) + list(y)):
                raise Und(path + ': unresolved list')
            raise Mismatch(path, a, b, 'length %d, expected %d' % (len(x), len(y)))
        for k, (p, q) in enumerate(zip(x, y)):
            for r in leaves(I, J, p, q, '%s[%d]' % (path, k)):
                yield r
        return
    if isinstance(a, Handle) and isinstance(b, Handle):
        yield path, a.term, b.term
        return
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if set(a.items) != set(b.items):
            raise Mismatch(path, a, b, 'different keys')
        for k in a.items:
            for r in leaves(I, J, a.items[k], b.items[k], '%s[%r]' % (path, k)):
                yield r
        return
    if isinstance(a, Ch) or isinstance(b, Ch):
        alts = a.alts if isinstance(a, Ch) else [(TRUE, a)]
        blts = b.alts if isinstance(b, Ch) else [(TRUE, b)]
        for c, x in alts:
            for d, y in blts:
                g = and_(c, d)
                if g is FALSE:
                    continue
                try:
                    for p, u, v in leaves(I, J, x, y, path):
                        yield p, ite(g, u, ZERO), ite(g, v, ZERO)
                except Mismatch:
                    # the two alternatives may not happen together
                    yield path, ite(g, ONE, ZERO), ZERO
        return
    if isinstance(a, (str, type(None), Builtin)) or isinstance(b, (str, type(None), Builtin)):
        if a == b:
            return
        raise Mismatch(path, a, b, 'is %r, expected %r' % (a, b))
    if isinstance(a, Inst) and isinstance(b, Inst):
        if a.cls.name != b.cls.name:
            raise Mismatch(path, a, b, 'object of class %s, expected %s' % (a.cls.name, b.cls.name))
        raise Und(path + ': objects are not compared')
    raise Mismatch(path, a, b, 'is %s, expected %s' % (type(a).__name__, type(b).__name__))


def ranges0(s):
    return {}


def indices(ranges, *ts):
    """ranges of the integers, with those of the indices of the compared element"""
    ix = {}
    for t in ts:
        for x in T.free(t):
            if x.op == 'sym' and x.args[0].startswith('@') and '/' in x.args[0]:
                ix[x.args[0]] = (0, int(x.args[0].split('/')[1]) - 1)
    return lambda s: dict(ranges(s) if callable(ranges) else ranges or {}, **ix)


class PRes(object):
    def __init__(self, status, msg='', lhs=None, rhs=None, run=None, points=0, where=''):
        self.status, self.msg, self.lhs, self.rhs, self.run, self.points, self.where = \
            status, msg, lhs, rhs, run, points, where


def solve(where):
    """equalities of the precondition, solved for input sizes and fields of native objects"""
    m = {}
    for c in T.conj(where):
        if c.op != 'eq0':
            continue
        pl = T._poly(T.subst(c.args[0], m))
        best = None
        for mo, k in pl.items():
            if len(mo) == 1 and mo[0][1] == 1 and abs(k) == 1:
                x = mo[0][0]
                if x.op == 'sym' and x.isint:
                    rank = 0 if x.args[0].startswith('n:') else 1
                elif x.op == 'fn' and x.args[0].startswith(('fld:', 'lib:')):
                    rank = 2
                else:
                    continue
                rest = T._frompoly({q: -v / k for q, v in pl.items() if q != mo})
                if any(y is x for y in T.subterms(rest)):
                    continue
                if best is None or rank < best[0]:
                    best = (rank, x, rest)
        if best:
            _, x, rest = best
            m = {y: T.subst(t, {x: rest}) for y, t in m.items()}
            m[x] = rest
    return m


def known(v, vb):
    return all(x in vb or not x.startswith('?') for x in v)


def rejected(L, R, un, n, rng, ranges):
    """the reference always raises: so must the code"""
    why = R.raises()[-1:]
    if why and why[0].name in ('KeyError', 'TypeError', 'AttributeError', 'IndexError', 'NameError',
                               'UnboundLocalError'):
        return PRes('undecided', 'reference fails: %s' % why, run=L)
    if un:
        return PRes('undecided', 'unresolved: %s' % un[0], run=L)
    if L.pc is FALSE:
        return PRes('ok', run=L, points=1)
    w = and_(L.pre, L.pc)
    if vocab(w)[1]:
        return PRes('undecided', 'unresolved condition of a normal return', run=L)
    o, k = T.equiv(ZERO, ONE, n=1, rng=rng, where=w, ranges=indices(ranges), tries=400,
                   assign=solve(w))
    if o is None:
        return PRes('ok' if k else 'undecided', 'no admissible interpretation of a normal return',
                    run=L)
    return PRes('violation', 'no exception although it is required: %s' % why, L.pc, FALSE, L, k)


def decide(P, name, mod, inputs, overrides=None, pre=None, ranges=ranges0, n=6, rng=(1, 4),
           writes=True, raisecmp=True, strictraise=False):
    L = Run(P, 'L_' + name, mod, inputs, overrides, pre)
    R = Run(P, 'R_' + name, mod, inputs, overrides, pre)
    un = [e for e in L.effects if e.kind == 'unknown']
    bad = [e for e in R.effects if e.kind in ('unknown', 'noattr')]
    if bad:
        return PRes('undecided', 'reference: %s' % bad[0], run=L)
    if R.pc is FALSE:
        return rejected(L, R, un, n, rng, ranges)
    pts = 0
    where0 = and_(L.pre, R.pc)
    if L.pc is FALSE:
        rs = [e for e in L.raises()]
        if un:
            return PRes('undecided', 'unresolved: %s' % un[0], run=L)
        return PRes('violation', 'always raises: %s' % (rs[-1] if rs else ''), TRUE, FALSE, L)
    try:
        pairs = list(leaves(L.I, R.I, L.value, R.value))
        if writes:
            wl = [e for e in L.natives() if outcome(e, L.I)]
            wr = [e for e in R.natives() if outcome(e, R.I)]
            if [e.name for e in wl] != [e.name for e in wr]:
                if un:
                    raise Und('unresolved: %s' % un[0])
                raise Mismatch('native calls', [e.name for e in wl], [e.name for e in wr],
                               'native calls %s, expected %s' % ([e.name for e in wl],
                                                                 [e.name for e in wr]))
            for e, f in zip(wl, wr):
                for a in e.order:
                    pairs.append(('%s(%s)' % (e.name, a), e.args[a][1], f.args[a][1]))
    except Und as u:
        return PRes('undecided', u.why, run=L)
    except Mismatch as m:
        if un:
            return PRes('undecided', 'unresolved: %s' % un[0], run=L)
        return PRes('violation', '%s %s' % (m.path, m.why), m.a, m.b, L)
    und = None
    where = and_(where0, L.pc)
    asg = solve(where)
    for p, a, b in pairs:
        if a is b:
            continue
        va, ua = vocab(a)
        vb, ub = vocab(b)
        o, k = T.equiv(a, b, n=n, rng=rng, where=where, ranges=indices(ranges, a, b),
                        tries=400, assign=asg)
        pts += k
        if o is None:
            und = PRes('undecided', '%s: no admissible interpretation' % p, a, b, L)
        elif not o:
            if ua or ub:
                und = PRes('undecided', '%s: unresolved %s' % (p, sorted(ua | ub)), a, b, L)
            else:
                return PRes('violation', '%s differs from the reference' % p, a, b, L, pts)
    if und:
        return und
    if raisecmp and L.pc is not R.pc:
        # conditions of a normal return
        for p, q, txt in ((L.pc, R.pc, 'is raised on valid input'),):
            left = [c for c in T.conj(p) if not T.implies(and_(where0), c)]
            for c in left:
                v, u = vocab(c)
                if u:
                    continue
                o, k = T.equiv(ite(c, ONE, ZERO), ONE, n=n, rng=rng, where=where0, ranges=ranges, tries=400,
                                  assign=solve(where0))
                if o is False:
                    src = [e for e in L.raises() if e.pc is not FALSE and
                           and_(e.pc, c) is FALSE]
                    return PRes('violation', 'an exception %s unless %s: %s' % (
                        txt, T.show(c)[:200], src[-1:] or ''), c, TRUE, L, pts)
    if strictraise:
        # what the reference rejects must be rejected
        for c in T.conj(R.pc):
            if T.implies(and_(L.pre, L.pc), c):
                continue
            v, u = vocab(c)
            if u or vocab(L.pc)[1]:
                und = PRes('undecided', 'unresolved condition %s' % T.show(c)[:200], run=L)
                continue
            o, k = T.equiv(ite(c, ONE, ZERO), ONE, n=n, rng=rng, where=and_(L.pre, L.pc),
                           ranges=ranges, tries=400, assign=solve(and_(L.pre, L.pc)))
            pts += k
            if o is False:
                return PRes('violation', 'no exception although it is required that %s' %
                            T.show(c)[:300], L.pc, c, L, pts)
        if und:
            return und
    return PRes('ok', run=L, points=pts, lhs=L.value, rhs=R.value)


def outcome(e, I):
    """native operations whose only result is a side effect"""
    w = I.wraps.get(e.name)
    return w is not None and w.ret == 'void' and not any(a.kind == 'size' for a in w.args)


# ---------------------------------------------------------------- overrides
def infokey(I, o):
    return I.lib.key(o)


def sht(name):
    """spherical harmonic transforms are functions of their arguments (map2alm and alm2map have
    lemmas of their own)"""
    def ov(I, v, n):
        L = I.lib
        m, spin, mi, ai = (v[k] for k in list(v)[:4])
        a = L.toarr(m)
        if not isinstance(a, Arr) or len(a.shape) != 2:
            return Opq(name)
        ncomp = a.shape[0]
        I.emit('sht', name, dict(v))
        nel = I.getattr(ai if name == 'map2alm' else mi, 'nelem' if name == 'map2alm' else 'npix')
        it = v.get('n_iter', ZERO)
        ks = (L.key(spin), a.whole(), L.key(mi), L.key(ai), L.key(it),
              L.key(I.getattr(I.getattr(I.module('pymaster.utils'), 'nmt_params'), 'sht_calculator')))
        r = L.fresh((ncomp, nel), lambda ix: fn('sht:' + name, tuple(ix) + ks),
                    dtype='c16' if name == 'map2alm' else 'f8')
        return r
    return ov


SHT = {'pymaster.utils.map2alm': sht('map2alm'), 'pymaster.utils.alm2map': sht('alm2map')}
