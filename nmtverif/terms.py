"""Hash-consed value terms (the nodes of the value-flow graph).

A term is canonical by construction: arithmetic is kept as polynomials over
opaque atoms, comparisons as `p < 0` / `p == 0`, boolean structure flattened.
`Eval` gives the random interpretation of a term (uninterpreted atoms are
mapped to pseudo-random values by hashing their canonical name), which is how
equality of two value-flow graphs is decided when their normal forms differ.
"""
from fractions import Fraction
import hashlib
import math

_table = {}
_count = [0]


class Term(object):
    __slots__ = ('op', 'args', 'uid', 'isint', '_free', '_hasphi')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.uid < o.uid


def _mk(op, args, isint=False):
    k = (op, args, isint)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.isint = isint
        _count[0] += 1
        t.uid = _count[0]
        t._free = None
        t._hasphi = None
        _table[k] = t
    return t


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return _mk('fn', ('special', (str_(repr(v)),)))
        v = Fraction(repr(v))
    v = Fraction(v)
    return _mk('num', (v,), v.denominator == 1)


ZERO = num(0)
ONE = num(1)
TRUE = _mk('bool', (True,), True)
FALSE = _mk('bool', (False,), True)


def str_(s):
    return _mk('str', (s,))


def sym(name, isint=False):
    return _mk('sym', (name,), isint)


def fn(name, args, isint=False):
    return _mk('fn', (name, tuple(args)), isint)


def isnum(t, v=None):
    if t.op != 'num':
        return False
    return True if v is None else t.args[0] == v


def cval(t):
    """constant value (Fraction) or None"""
    if t.op == 'num':
        return t.args[0]
    if t.op == 'bool':
        return Fraction(int(t.args[0]))
    return None


def ival(t):
    v = cval(t)
    if v is None or v.denominator != 1:
        return None
    return int(v)


# ---------------------------------------------------------------- polynomials
# dict {mono: coeff}; mono = tuple of (atom, power) sorted by uid

def _poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _frompoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    isint = all(c.denominator == 1 for c in p.values()) and \
        all(a.isint and k > 0 for m in p for a, k in m)
    key = tuple(sorted(p.items(), key=lambda mc: (tuple((a.uid, k) for a, k in mc[0]), mc[1])))
    return _mk('poly', (key,), isint)


def _mulmono(a, b):
    d = {}
    for x, k in a:
        d[x] = d.get(x, 0) + k
    for x, k in b:
        d[x] = d.get(x, 0) + k
    return tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda z: z[0].uid))


def add(*ts):
    r = {}
    for t in ts:
        if t.op == 'ite' and len(ts) == 2:
            pass
        for m, c in _poly(t).items():
            r[m] = r.get(m, 0) + c
    return _frompoly(r)


def neg(t):
    return _frompoly({m: -c for m, c in _poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


MAXMONO = 400


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        p = _poly(t)
        if len(p) * len(r) > MAXMONO:
            # keep it opaque rather than exploding
            x = _frompoly(r)
            r = {_mulmono(((_mk('wrap', (x,), x.isint), 1),),
                          ((_mk('wrap', (t,), t.isint), 1),)): Fraction(1)}
            continue
        q = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m = _mulmono(m1, m2)
                q[m] = q.get(m, 0) + c1 * c2
        r = q
    return _frompoly(_imag(r))


def _imag(p):
    """powers of the imaginary unit"""
    if not any(a.op == 'sym' and a.args[0] == 'I' and k != 1 for m in p for a, k in m):
        return p
    r = {}
    for m, c in p.items():
        q = []
        for a, k in m:
            if a.op == 'sym' and a.args[0] == 'I':
                k %= 4
                if k >= 2:
                    c = -c
                    k -= 2
                if not k:
                    continue
            q.append((a, k))
        q = tuple(q)
        r[q] = r.get(q, 0) + c
    return r


def inv(t):
    p = _poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return _frompoly(_imag({tuple((a, -k) for a, k in m): 1 / c}))
    if not p:
        return fn('inv', (ZERO,))
    # normalise the sign/scale of the leading coefficient
    k = min(p, key=lambda m: tuple((a.uid, e) for a, e in m))
    c = p[k]
    q = _frompoly({m: v / c for m, v in p.items()})
    return _frompoly({((_mk('wrap', (q,), False), -1),): 1 / c})


def div(a, b):
    return mul(a, inv(b))


def idiv(a, b):
    x, y = cval(a), cval(b)
    if y == 1:
        return a
    if x is not None and y:
        q = abs(x) // abs(y)
        return num(q if (x >= 0) == (y > 0) else -q)
    return _mk('idiv', (a, b), True)


def mod(a, b):
    x, y = cval(a), cval(b)
    if x is not None and y:
        return num(int(math.fmod(x, y)))
    return _mk('mod', (a, b), True)


def power(a, k):
    v = ival(k)
    if v is not None and abs(v) <= 8:
        if v == 0:
            return ONE
        r = mul(*([a] * abs(v)))
        return r if v > 0 else inv(r)
    if cval(k) == Fraction(1, 2):
        return fn('sqrt', (a,))
    return fn('pow', (a, k))


# ---------------------------------------------------------------- booleans

def _canon_sign(t):
    p = _poly(t)
    if not p:
        return t
    k = min(p, key=lambda m: (m == (), tuple((a.uid, e) for a, e in m)))
    if p[k] < 0:
        return neg(t)
    return t


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'str' or b.op == 'str':
        if a.op == 'str' and b.op == 'str':
            return FALSE
        return _mk('seq', tuple(sorted((a, b))), True)
    if a.op == 'ite' and cval(b) is not None and a.args[1].op == 'num' and a.args[2].op == 'num':
        return bool_ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and cval(a) is not None:
        return eq(b, a)
    if isbool(a) and cval(b) is not None:
        return not_(a) if cval(b) == 0 else (a if cval(b) == 1 else FALSE)
    if isbool(b) and cval(a) is not None:
        return eq(b, a)
    if a.op == 'ptr' or b.op == 'ptr':
        if a.op == 'ptr' and b.op == 'ptr':
            return _mk('peq', tuple(sorted((a, b))), True)
        p = a if a.op == 'ptr' else b
        o = b if a.op == 'ptr' else a
        if isnum(o, 0):
            k = p.args[0]
            if k.op == 'obj' and k.args[0] in ('alloc', 'var', 'global', 'str', 'kfunction'):
                return FALSE
            return _mk('isnull', (p,), True)
        return _mk('peq', tuple(sorted((a, b))), True)
    d = sub(a, b)
    v = cval(d)
    if v is not None:
        return TRUE if v == 0 else FALSE
    if d.isint:
        p = _poly(d)
        nc = [c for m, c in p.items() if m != ()]
        c0 = p.get((), Fraction(0))
        g = 0
        for c in nc:
            g = math.gcd(g, abs(int(c)))
        if g > 1:
            if int(c0) % g:
                return FALSE
            d = _frompoly({m: c / g for m, c in p.items()})
    return _mk('eq0', (_canon_sign(d),), True)


def lt(a, b):
    """a < b"""
    if a.op == 'ptr' or b.op == 'ptr':
        return _mk('plt', (a, b), True)
    d = sub(a, b)
    v = cval(d)
    if v is not None:
        return TRUE if v < 0 else FALSE
    if isbool(d):
        return FALSE
    if d.op == 'fn' and d.args[0] == 'sqrt':
        return FALSE
    d = _scale(d)
    return _mk('lt0', (d,), True)


def _scale(d):
    p = _poly(d)
    cs = [c for m, c in p.items()]
    nc = [c for m, c in p.items() if m != ()]
    if d.isint:
        g = 0
        for c in nc:
            g = math.gcd(g, abs(int(c)))
        if g > 1:
            # a*g + c0 < 0  <=>  a < -c0/g  <=> a <= ceil(-c0/g)-1
            c0 = int(p.get((), 0))
            q = {m: c / g for m, c in p.items() if m != ()}
            # a*g < -c0  <=> a < -c0/g <=> a < ceil(-c0/g)
            bound = -((c0) // g)
            q[()] = Fraction(-bound)
            return _frompoly(q)
        return d
    m0 = min(p, key=lambda m: (m == (), tuple((a.uid, e) for a, e in m)))
    c = abs(p[m0])
    if c != 1:
        return _frompoly({m: v / c for m, v in p.items()})
    return d


def le(a, b):
    if a.op == 'ptr' or b.op == 'ptr':
        return not_(lt(b, a))
    if a.isint and b.isint:
        return lt(a, add(b, ONE))
    return not_(lt(b, a))


def isbool(t):
    return t.op in ('bool', 'and', 'or', 'not', 'lt0', 'eq0', 'isnull', 'peq', 'plt', 'seq',
                    'truth')


def truth(t):
    """term -> boolean term (C / Python truthiness of a number)"""
    if isbool(t):
        return t
    v = cval(t)
    if v is not None:
        return TRUE if v else FALSE
    if t.op == 'ite':
        return bool_ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == 'ptr':
        return not_(eq(t, ZERO))
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    return not_(eq(t, ZERO))


def bool_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


_notmemo = {}


def not_(a):
    r = _notmemo.get(a)
    if r is None:
        r = _notmemo[a] = _not(a)
    return r


def _not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'lt0' and a.args[0].isint:
        # not (p<0)  <=> p>=0 <=> -p-1 < 0
        return _mk('lt0', (sub(neg(a.args[0]), ONE),), True)
    return _mk('not', (a,), True)


_andmemo = {}


def and_(*ts):
    if len(ts) == 1:
        return ts[0]
    k = frozenset(ts)
    r = _andmemo.get(k)
    if r is None:
        r = _andmemo[k] = _and(*ts)
    return r


def _and(*ts):
    s = []
    seen = set()
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == 'and':
            st.extend(reversed(t.args))
            continue
        if t in seen:
            continue
        seen.add(t)
        s.append(t)
    for t in s:
        if not_(t) in seen:
            return FALSE
    if _contradict(s):
        return FALSE
    # unit propagation into disjunctions
    out = []
    for t in s:
        if t.op == 'or':
            alts = []
            sat = False
            for x in t.args:
                if x in seen and x is not t:
                    sat = True
                    break
                if not_(x) in seen:
                    continue
                if x.op == 'and' and any(not_(y) in seen for y in x.args):
                    continue
                alts.append(x)
            if sat:
                continue
            if not alts:
                return FALSE
            if len(alts) < len(t.args):
                r = or_(*alts)
                return and_(*(out + [r] + [z for z in s if z is not t and z not in out]))
        out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(sorted(out)), True)


_linmemo = {}


def _lin(t):
    """(atom-part poly, const, negated atom-part) of a p<0 / p==0 literal"""
    r = _linmemo.get(t)
    if r is None:
        p = _poly(t)
        c = p.pop((), Fraction(0))
        f = _frompoly(p)
        r = _linmemo[t] = (f, c, neg(f))
    return r


def _contradict(s):
    """cheap interval reasoning on literals over the same linear form"""
    iv = {}
    for t in s:
        if t.op == 'lt0':
            f, c, nf = _lin(t.args[0])
            strict = True
            # f + c < 0 : f < -c
            iv.setdefault(f, []).append(('<', -c, t.args[0].isint))
            iv.setdefault(nf, []).append(('>', c, t.args[0].isint))
        elif t.op == 'eq0':
            f, c, nf = _lin(t.args[0])
            iv.setdefault(f, []).append(('=', -c, t.args[0].isint))
            iv.setdefault(nf, []).append(('=', c, t.args[0].isint))
        elif t.op == 'not' and t.args[0].op == 'eq0':
            f, c, nf = _lin(t.args[0].args[0])
            iv.setdefault(f, []).append(('!', -c, t.args[0].args[0].isint))
            iv.setdefault(nf, []).append(('!', c, t.args[0].args[0].isint))
        elif t.op == 'not' and t.args[0].op == 'lt0':
            f, c, nf = _lin(t.args[0].args[0])
            # f + c >= 0 : f >= -c
            iv.setdefault(f, []).append(('ge', -c, False))
            iv.setdefault(nf, []).append(('le', c, False))
    for f, L in iv.items():
        if len(L) < 2:
            continue
        lo, hi = None, None   # inclusive for ints
        loS = hiS = False
        eqs = set()
        ne = set()
        for k, v, isint in L:
            if k == '<':
                v2, s2 = (v - 1, False) if isint else (v, True)
                if hi is None or v2 < hi or (v2 == hi and s2):
                    hi, hiS = v2, s2
            elif k == 'le':
                if hi is None or v < hi:
                    hi, hiS = v, False
            elif k == '>':
                v2, s2 = (v + 1, False) if isint else (v, True)
                if lo is None or v2 > lo or (v2 == lo and s2):
                    lo, loS = v2, s2
            elif k == 'ge':
                if lo is None or v > lo:
                    lo, loS = v, False
            elif k == '=':
                eqs.add(v)
            elif k == '!':
                ne.add(v)
        if len(eqs) > 1:
            return True
        for v in eqs:
            if v in ne:
                return True
            if lo is not None and (v < lo or (loS and v == lo)):
                return True
            if hi is not None and (v > hi or (hiS and v == hi)):
                return True
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (loS or hiS))):
            return True
        if lo is not None and hi is not None and lo == hi and lo in ne:
            return True
    return False


_ormemo = {}


def or_(*ts):
    if len(ts) == 1:
        return ts[0]
    k = frozenset(ts)
    r = _ormemo.get(k)
    if r is None:
        r = _ormemo[k] = _or(*ts)
    return r


def _or(*ts):
    s = []
    seen = set()
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == 'or':
            st.extend(reversed(t.args))
            continue
        if t in seen:
            continue
        seen.add(t)
        s.append(t)
    for t in s:
        if not_(t) in seen:
            return TRUE
    if not s:
        return FALSE
    # factor common conjuncts
    if len(s) > 1:
        cs = [set(t.args) if t.op == 'and' else {t} for t in s]
        com = set.intersection(*cs)
        if com:
            rest = [and_(*(c - com)) for c in cs]
            return and_(*(list(com) + [or_(*rest)]))
        # a or (not a and b) -> a or b
        ch = False
        out = []
        for i, t in enumerate(s):
            if t.op == 'and':
                keep = [x for x in t.args
                        if not any(o is not t and o.op != 'and' and not_(o) is x for o in s)]
                if len(keep) < len(t.args):
                    t = and_(*keep)
                    ch = True
            out.append(t)
        if ch:
            return or_(*out)
    if len(s) == 1:
        return s[0]
    if _contradict([not_(x) for x in s]):
        return TRUE
    return _mk('or', tuple(sorted(s)), True)


def conj(t):
    """set of conjuncts"""
    if t is TRUE:
        return frozenset()
    if t.op == 'and':
        return frozenset(t.args)
    return frozenset((t,))


_impmemo = {}


def implies(g, c):
    """sound, incomplete: does g imply c?"""
    k = (g, c)
    r = _impmemo.get(k)
    if r is None:
        r = _impmemo[k] = _implies(g, c)
    return r


def _implies(g, c):
    if c is TRUE or g is FALSE:
        return True
    if g is c:
        return True
    if and_(g, not_(c)) is FALSE:
        return True
    if c.op == 'and':
        return all(implies(g, x) for x in c.args)
    if c.op == 'or':
        return any(implies(g, x) for x in c.args)
    if g.op == 'or':
        return all(implies(x, c) for x in g.args)
    if g.op == 'and':
        ors = [x for x in g.args if x.op == 'or']
        if ors and len(ors[0].args) <= 6:
            rest = [x for x in g.args if x is not ors[0]]
            return all(implies(and_(x, *rest), c) for x in ors[0].args)
    return False


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return bool_ite(c, a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk('ite', (c, a, b), a.isint and b.isint)


def minmax(k, a, b):
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return a if (x <= y) == (k == 'min') else b
    if a is b:
        return a
    return _mk(k, tuple(sorted((a, b))), a.isint and b.isint)


# ---------------------------------------------------------------- objects / pointers

def obj(kind, *args):
    return _mk('obj', (kind,) + args)


def ptr(base, steps):
    """steps: tuple of ('f',name) / ('i',Term)"""
    return _mk('ptr', (base, tuple(steps)))


def load(base, steps, tag='', isint=False):
    return _mk('load', (base, tuple(steps), tag), isint)


class Loop(object):
    """A loop summary; `sym` ranges over [lo, hi) (canonical ascending form)."""
    _n = [0]
    reg = {}                    # loop symbol -> Loop

    def __init__(self, lo, hi, file=None, line=0, name=''):
        Loop._n[0] += 1
        self.id = Loop._n[0]
        self.lo = lo
        self.hi = hi
        self.sym = sym('%s#%d' % (name, self.id), True)
        self.desc = False
        self.early = False      # may stop before hi
        self.soft = False       # may skip last iterations that would do nothing
        self.known = True       # lo/hi are exact
        self.omp = None         # parallel-for region id
        self.file = file
        self.line = line
        self.stores = []        # pass-A store patterns (loop-carried dependences)
        self.pc = TRUE

    @property
    def sym(self):
        return self._sym

    @sym.setter
    def sym(self, v):
        self._sym = v
        Loop.reg.setdefault(v, self)

    def __repr__(self):
        return 'for %s in [%s,%s)%s' % (self.sym, self.lo, self.hi, '!' if self.early else '')


def constraints(loop):
    c = loop.__dict__.get('_cons')
    if c is None or c[0] is not loop.lo or c[1] is not loop.hi:
        c = (loop.lo, loop.hi, and_(le(loop.lo, loop.sym), lt(loop.sym, loop.hi)))
        loop._cons = c
    return c[2]


_bound = {}
RED = ('sum', 'minr')       # reductions over a loop: (bound variable, condition, element)


def bvar(k):
    return sym('$%d' % k, True)


def _bdepth(t):
    d = 0
    for x in subterms(t):
        if x.op in RED:
            d = max(d, x.args[0])
        elif x.op == 'lam':
            d = max(d, x.args[0] + x.args[1] - 1)
    return d


def lam(dims, f):
    """A whole array as a value: f maps index terms to the element, dims are its sizes."""
    n = len(dims)
    tmp = [sym('$t%d_%d' % (n, i), True) for i in range(n)]
    # elements may contain other arrays: bind from the inside out
    lam.depth += 1
    tmp = [sym('$t%d_%d' % (lam.depth, i), True) for i in range(n)]
    try:
        body = f(tuple(tmp))
    finally:
        lam.depth -= 1
    k = _bdepth(body) + 1
    body = subst(body, {t: bvar(k + i) for i, t in enumerate(tmp)})
    return _mk('lam', (k, n) + tuple(dims) + (body,))


lam.depth = 0


def sum_(loop, guard, body):
    if cval(body) == 0:
        return ZERO
    g = and_(constraints(loop), guard)
    k = max(_bdepth(g), _bdepth(body)) + 1
    v = bvar(k)
    m = {loop.sym: v}
    # range split of min/max in the bounds happens in evaluation
    return _mk('sum', (k, subst(g, m), subst(body, m)), body.isint)


INF = num(10 ** 30)


def min_(loop, guard, body):
    """least element over the iterations where guard holds (INF if there are none)"""
    if body is INF:
        return INF
    g = and_(constraints(loop), guard)
    k = max(_bdepth(g), _bdepth(body)) + 1
    m = {loop.sym: bvar(k)}
    return _mk('minr', (k, subst(g, m), subst(body, m)), body.isint)


# ---------------------------------------------------------------- traversal

def children(t):
    op = t.op
    if op in ('num', 'str', 'sym', 'bool'):
        return ()
    if op == 'poly':
        return tuple(a for m, c in t.args[0] for a, k in m)
    if op == 'fn':
        return t.args[1]
    if op in ('ptr', 'load'):
        return (t.args[0],) + tuple(s[1] for s in t.args[1] if s[0] == 'i')
    if op == 'obj':
        return tuple(a for a in t.args if isinstance(a, Term))
    if op in RED:
        return (t.args[1], t.args[2])
    return tuple(a for a in t.args if isinstance(a, Term))


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def free(t):
    """set of sym terms occurring in t"""
    if t._free is None:
        if t.op == 'sym':
            t._free = frozenset((t,))
        else:
            s = frozenset()
            for c in children(t):
                s |= free(c)
            if t.op in RED:
                s -= {bvar(t.args[0])}
            elif t.op == 'lam':
                s -= {bvar(t.args[0] + i) for i in range(t.args[1])}
            t._free = s
    return t._free


def steps_subst(steps, m, memo=None):
    return tuple((s[0], subst(s[1], m, memo)) if s[0] == 'i' else s for s in steps)


def subst(t, m, memo=None):
    """m: dict Term->Term (syms, loads or any subterm)"""
    if not m:
        return t
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ('num', 'str', 'sym', 'bool'):
        return t
    if op == 'poly':
        r = ZERO
        acc = {}
        changed = False
        for mono, c in t.args[0]:
            if any(subst(a, m, memo) is not a for a, k in mono):
                changed = True
                f = num(c)
                for a, k in mono:
                    a2 = subst(a, m, memo)
                    if k < 0:
                        a2 = inv(a2)
                    for _ in range(abs(k)):
                        f = mul(f, a2)
                for mm, cc in _poly(f).items():
                    acc[mm] = acc.get(mm, 0) + cc
            else:
                acc[mono] = acc.get(mono, 0) + c
        r = _frompoly(acc) if changed else t
    elif op == 'fn':
        a = tuple(subst(x, m, memo) for x in t.args[1])
        r = refn(t.args[0], a, t.isint)
    elif op == 'ptr':
        r = ptr(subst(t.args[0], m, memo), steps_subst(t.args[1], m, memo))
    elif op == 'load':
        r = load(subst(t.args[0], m, memo), steps_subst(t.args[1], m, memo), t.args[2], t.isint)
    elif op == 'obj':
        r = obj(*[subst(x, m, memo) if isinstance(x, Term) else x for x in t.args])
    elif op in RED:
        b = bvar(t.args[0])
        if b in m:
            m = {k: v for k, v in m.items() if k is not b}
            memo = {}
        g = subst(t.args[1], m, memo)
        bd = subst(t.args[2], m, memo)
        r = _mk(op, (t.args[0], g, bd), bd.isint) if op != 'sum' or bd is not ZERO else ZERO
    else:
        if op == 'lam' and any(bvar(t.args[0] + i) in m for i in range(t.args[1])):
            bs = {bvar(t.args[0] + i) for i in range(t.args[1])}
            m = {k: v for k, v in m.items() if k not in bs}
            memo = {}
        a = [subst(x, m, memo) if isinstance(x, Term) else x for x in t.args]
        if all(x is y for x, y in zip(a, t.args)):
            r = t
        else:
            r = rebuild(op, a, t.isint)
    memo[t] = r
    return r


def rebuild(op, a, isint=False):
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'not':
        return not_(a[0])
    if op == 'ite':
        return ite(*a)
    if op == 'eq0':
        return eq(a[0], ZERO)
    if op == 'lt0':
        return lt(a[0], ZERO)
    if op == 'isnull':
        return eq(a[0], ZERO)
    if op in ('peq', 'seq'):
        return eq(a[0], a[1])
    if op == 'idiv':
        return idiv(*a)
    if op == 'mod':
        return mod(*a)
    if op in ('min', 'max'):
        return minmax(op, *a)
    if op == 'wrap':
        return a[0]
    return _mk(op, tuple(a), isint)


def refn(name, a, isint=False):
    if name == 'bitand':
        x, y = ival(a[0]), ival(a[1])
        if x is not None and y is not None:
            return num(x & y)
        if y == 1 or x == 1:
            return _mk('fn', ('parity', (parity_arg(a[0] if y == 1 else a[1]),)), True)
    if name == 'parity':
        x = ival(a[0])
        if x is not None:
            return num(x & 1)
        p = parity_arg(a[0])
        x = ival(p)
        if x is not None:
            return num(x & 1)
        return _mk('fn', ('parity', (p,)), True)
    if name == 'fabs' or name == 'abs':
        x = cval(a[0])
        if x is not None:
            return num(abs(x))
        return _mk('fn', ('abs', (_canon_sign(a[0]),)), isint)
    if name in ('fdiv', 'fmod') and cval(a[0]) is not None and cval(a[1]):
        x, y = cval(a[0]), cval(a[1])
        return num(x // y if name == 'fdiv' else x % y)
    if name == 'toint':
        x = cval(a[0])
        if x is not None:
            return num(int(x))
        if a[0].isint:
            return a[0]
    if name == 'sqrt':
        x = cval(a[0])
        if x is not None and x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return num(Fraction(n, d))
    return _mk('fn', (name, tuple(a)), isint)


def parity_arg(t):
    """reduce a polynomial modulo 2 (integers)"""
    if not t.isint:
        return t
    p = {}
    for m, c in _poly(t).items():
        c = Fraction(int(c) % 2)
        # x^k = x modulo 2
        m = tuple((a, 1) for a, k in m)
        p[m] = (p.get(m, 0) + c) % 2
    return _frompoly({m: Fraction(c) for m, c in p.items()})


# ---------------------------------------------------------------- display

def show(t, d=0):
    op = t.op
    if d > 12:
        return '...'
    if op == 'num':
        v = t.args[0]
        return str(v) if v.denominator < 10000 else '%.6g' % float(v)
    if op == 'bool':
        return str(t.args[0])
    if op == 'str':
        return repr(t.args[0])
    if op == 'sym':
        return t.args[0]
    if op == 'poly':
        out = []
        for m, c in t.args[0]:
            f = []
            for a, k in m:
                s = show(a, d + 1)
                if a.op in ('poly',):
                    s = '(' + s + ')'
                f.append(s if k == 1 else '%s^%d' % (s, k))
            if not m:
                out.append(show(num(c)))
            elif c == 1:
                out.append('*'.join(f))
            elif c == -1:
                out.append('-' + '*'.join(f))
            else:
                out.append(show(num(c)) + '*' + '*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, d + 1) for x in t.args[1]))
    if op == 'ptr':
        return '&' + showloc(t.args[0], t.args[1], d + 1)
    if op == 'load':
        s = showloc(t.args[0], t.args[1], d + 1)
        return s + ('{%s}' % t.args[2] if t.args[2] else '')
    if op == 'obj':
        k = t.args[0]
        if k in ('param', 'global', 'self'):
            return str(t.args[1])
        if k == 'deref':
            return showloc(t.args[1], [s for s in t.args[2].args[1]], d + 1) \
                if False else show(t.args[1], d + 1)
        return k + '(' + ','.join(show(x, d + 1) if isinstance(x, Term) else str(x)
                                  for x in t.args[1:]) + ')'
    if op in RED:
        return '%s[$%d: %s](%s)' % ('Sum' if op == 'sum' else 'Min', t.args[0], show(t.args[1], d + 1), show(t.args[2], d + 1))
    if op == 'lt0':
        return '(%s < 0)' % show(t.args[0], d + 1)
    if op == 'eq0':
        return '(%s == 0)' % show(t.args[0], d + 1)
    if op == 'not':
        return '!' + show(t.args[0], d + 1)
    if op == 'and':
        return '(' + ' & '.join(show(x, d + 1) for x in t.args) + ')'
    if op == 'or':
        return '(' + ' | '.join(show(x, d + 1) for x in t.args) + ')'
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x, d + 1) for x in t.args)
    if op == 'wrap':
        return show(t.args[0], d)
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) if isinstance(x, Term) else str(x)
                                     for x in t.args))


def showloc(base, steps, d=0):
    s = show(base, d + 1)
    if base.op == 'obj' and base.args[0] == 'deref' and s.startswith('&'):
        s = s[1:]
    for i, st in enumerate(steps):
        if st[0] == 'f':
            s += '.' + st[1]
        else:
            if isnum(st[1], 0) and i + 1 < len(steps) and steps[i + 1][0] == 'f':
                continue
            s += '[%s]' % show(st[1], d + 1)
    return s


# ---------------------------------------------------------------- random interpretation

def lastname(k):
    nm = None
    for x in k:
        if isinstance(x, tuple):
            nm = lastname(x) or nm
        elif isinstance(x, str) and x not in ('ptr', 'deref', 'param'):
            nm = x
    return nm


class Undefined(Exception):
    pass


class DivZero(Undefined):
    """a real number is divided by zero"""


class Eval(object):
    """Random interpretation of terms.

    ints: assignment of integer atoms by *name pattern* (callable name->int or None)
    """
    P = (1 << 61) - 1

    def __init__(self, seed=1, assign=None, rng=(1, 4), ranges=None, mode=0):
        self.ranges = ranges
        self.mode = mode
        self.seed = seed
        self.assign = assign or {}
        self.rng = rng
        self.env = {}
        self.memo = {}

    def h(self, *key):
        s = repr((self.seed,) + key).encode()
        return int.from_bytes(hashlib.md5(s).digest()[:8], 'little')

    @staticmethod
    def keyname(key):
        if key[0] == 'sym':
            return key[1]
        if key[0] == 'load':
            nm = ''
            for x in key[1]:
                if isinstance(x, str):
                    nm = x
                elif isinstance(x, tuple) and x and x[0] == 'param':
                    nm = x[1]
                elif isinstance(x, tuple) and x and x[0] == 'deref':
                    nm = lastname(x) or nm
            return nm
        return key[1] if len(key) > 1 and isinstance(key[1], str) else ''

    def rnd(self, isint, *key):
        v = self.h(*key)
        if isint:
            lo, hi = self.rng
            if self.ranges:
                r = self.ranges.get(self.keyname(key))
                if r is not None:
                    lo, hi = r
                elif key[0] == 'sym' and '#' in key[1]:
                    lo, hi = 0, 2
            return lo + v % (hi - lo + 1)
        # special interpretations of the inputs: equal values make guards on data hold
        if self.ranges:
            r = self.ranges.get(self.keyname(key))
            if r is not None and isinstance(r[0], float):
                return r[0] + (r[1] - r[0]) * (v % 1000003) / 1000003.0
        k = self.mode
        if k and (key[0] == 'sym' or key[0] == 'load' and not key[-1]):
            return 1.0 if k == 1 else (1.0 + v % 2 if k == 2 else float(v % 2))
        return 0.5 + (v % 1000003) / 1000003.0

    def name(self, base, steps):
        """evaluated canonical name of a location"""
        if base.op == 'obj':
            b = tuple((self.val(x) if not x.op == 'ptr' else self.pname(x))
                      if isinstance(x, Term) else x for x in base.args)
        else:
            b = ('?', self.val(base))
        out = [b]
        for s in steps:
            out.append(s[1] if s[0] == 'f' else self.r(self.val(s[1])))
        return tuple(out)

    @staticmethod
    def r(v):
        if isinstance(v, float):
            v = float('%.9g' % v)
            return int(v) if v == v and abs(v) < 1e15 and v == int(v) else v
        if isinstance(v, tuple):
            return tuple(Eval.r(x) for x in v)
        return v

    def pname(self, p):
        return ('ptr',) + self.name(p.args[0], p.args[1])

    def val(self, t):
        op = t.op
        if op == 'num':
            v = t.args[0]
            return int(v) if v.denominator == 1 else float(v)
        if op == 'bool':
            return int(t.args[0])
        if t in self.env:
            return self.env[t]
        if t in self.assign:
            v = self.assign[t]
            return self.val(v) if isinstance(v, Term) else v
        fr = None
        if self.env:
            fr = frozenset((x, self.env[x]) for x in free(t) if x in self.env)
        k = (t, fr)
        if k in self.memo:
            return self.memo[k]
        v = self._val(t)
        self.memo[k] = v
        return v

    def _val(self, t):
        op = t.op
        if op == 'str':
            return t.args[0]
        if op == 'sym':
            return self.rnd(t.isint, 'sym', t.args[0])
        if op == 'poly':
            s = 0
            for m, c in t.args[0]:
                f = int(c) if c.denominator == 1 else float(c)
                for a, k in m:
                    x = self.val(a)
                    if isinstance(x, (str, tuple)):
                        x = self.rnd(False, 'num', x)
                    if k < 0 and x == 0:
                        raise (Undefined if a.isint else DivZero)()
                    f = f * x ** k
                s = s + f
            return s
        if op == 'wrap':
            return self.val(t.args[0])
        if op == 'fn':
            name = t.args[0]
            if name[:4] == 'red:':
                v = self.reduced(name[4:], t)
                if v is not None:
                    return v
            a = [self.val(x) if x.op != 'ptr' else self.pname(x) for x in t.args[1]]
            return self.func(name, a, t.isint)
        if op == 'ptr':
            return self.pname(t)
        if op == 'load':
            return self.rnd(t.isint, 'load', self.name(t.args[0], t.args[1]), t.args[2])
        if op == 'obj':
            return self.h('obj', self.name(t, ()))
        if op == 'ite':
            return self.val(t.args[1] if self.val(t.args[0]) else t.args[2])
        if op == 'and':
            return int(all(self.val(x) for x in t.args))
        if op == 'or':
            return int(any(self.val(x) for x in t.args))
        if op == 'not':
            return int(not self.val(t.args[0]))
        if op == 'lt0':
            return int(self.val(t.args[0]) < 0)
        if op == 'eq0':
            x = self.val(t.args[0])
            return int(abs(x) < 1e-12) if not isinstance(x, (str, tuple)) else 0
        if op == 'isnull':
            return self.h('isnull', self.pname(t.args[0])) & 1
        if op in ('peq', 'seq'):
            return int(self.val(t.args[0]) == self.val(t.args[1]))
        if op == 'plt':
            return self.h('plt', repr(self.val(t.args[0])), repr(self.val(t.args[1]))) & 1
        if op == 'truth':
            return self.h('truth', repr(self.val(t.args[0]))) & 1
        if op == 'idiv':
            a, b = self.val(t.args[0]), self.val(t.args[1])
            if b == 0:
                raise Undefined()
            q = abs(a) // abs(b)
            return int(q if (a >= 0) == (b > 0) else -q)
        if op == 'mod':
            a, b = self.val(t.args[0]), self.val(t.args[1])
            if b == 0:
                raise Undefined()
            return int(math.fmod(a, b))
        if op in ('min', 'max'):
            a = [self.val(x) for x in t.args]
            return min(a) if op == 'min' else max(a)
        if op in RED:
            b = bvar(t.args[0])
            s = 0 if op == 'sum' else 10 ** 30
            old = self.env.get(b)
            lo, hi = self.sumrange(t, b)
            try:
                for x in range(lo, hi + 1):
                    self.env[b] = x
                    if self.val(t.args[1]):
                        v = self.val(t.args[2])
                        s = s + v if op == 'sum' else min(s, v)
            finally:
                if old is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = old
            return s
        if op == 'lam':
            k, n = t.args[:2]
            dims = [self.val(d) for d in t.args[2:-1]]
            bs = [bvar(k + i) for i in range(n)]
            old = {b: self.env[b] for b in bs if b in self.env}
            out = [self.r(d) for d in dims]
            try:
                for s in range(7 if n else 1):
                    for i, b in enumerate(bs):
                        d = dims[i]
                        if not isinstance(d, int) or d < 1:
                            d = 1
                        self.env[b] = 0 if s == 0 else (d - 1 if s == 1 else
                                                        self.h('lam', s, i) % d)
                    try:
                        v = self.val(t.args[-1])
                    except Undefined:
                        v = 'undefined'
                    out.append(self.r(v))
            finally:
                for b in bs:
                    self.env.pop(b, None)
                self.env.update(old)
            return ('lam',) + tuple(out)
        return self.rnd(t.isint, op, tuple(self.val(x) if isinstance(x, Term) else x
                                           for x in t.args))

    def sumrange(self, t, b):
        los, his = [], []
        for c in conj(t.args[1]):
            if c.op != 'lt0':
                continue
            p = dict(_poly(c.args[0]))
            k = p.pop(((b, 1),), None)
            if k is None or abs(k) != 1:
                continue
            r = _frompoly(p)
            if b in free(r):
                continue
            v = self.val(r)
            if isinstance(v, (str, tuple)):
                continue
            # k*b + v < 0
            if k > 0:
                his.append(int(math.ceil(-v)) - 1)
            else:
                los.append(int(math.floor(v)) + 1)
        lo = max(los) if los else -4
        hi = min(his) if his else max(25, lo + 25)
        if hi - lo > 2000:
            raise Undefined()
        return lo, hi

    def reduced(self, kind, t):
        """extrema of a small one-dimensional array"""
        x = t.args[1][0]
        if kind not in ('max', 'min') or len(t.args[1]) != 1 or x.op != 'lam' or x.args[1] != 1:
            return None
        n = self.val(x.args[2])
        if not isinstance(n, int) or not 0 < n <= 200:
            return None
        b = bvar(x.args[0])
        old = self.env.get(b)
        out = []
        try:
            for i in range(n):
                self.env[b] = i
                out.append(self.val(x.args[-1]))
        finally:
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old
        if any(isinstance(v, (str, tuple)) for v in out):
            return None
        return max(out) if kind == 'max' else min(out)

    def linear(self, name, a, isint):
        """transforms are odd in the map or the coefficients they are given"""
        w = name.split(':')
        k = None
        if w[0] == 'sht':
            k = 3
        elif w[1].endswith('synthesis') or w[1].startswith('hp.'):
            npos, _, kws = w[2].partition(',')
            kws = kws.split(',') if kws else []
            n = int(npos)
            if n:
                k = len(a) - len(kws) - n
            else:
                k = len(a) - len(kws) + [i for i, q in enumerate(kws) if q in ('alm', 'map')][0]
        if k is None or not isinstance(a[k], tuple) or a[k][0] != 'lam':
            return self.rnd(isint, 'fn', name, tuple(self.r(x) for x in a))
        v = a[k]
        body = list(v[-7:])
        lead = [x for x in body if isinstance(x, (int, float)) and abs(x) > 1e-7]
        sg = -1 if lead and lead[0] < 0 else 1
        if sg < 0:
            body = [-x if isinstance(x, (int, float)) else x for x in body]
            a = list(a)
            a[k] = v[:-7] + tuple(body)
        return sg * self.rnd(isint, 'fn', name, tuple(self.r(x) for x in a))

    def func(self, name, a, isint):
        try:
            if name == 'sqrt':
                return math.sqrt(a[0]) if a[0] >= 0 else -math.sqrt(-a[0]) * 1.234567
            if name == 'abs':
                return abs(a[0])
            if name == 'parity':
                return int(a[0]) & 1
            if name == 'toint':
                return int(a[0])
            if name == 'any' and isinstance(a[0], tuple) and a[0][0] == 'lam':
                # on the sampled elements
                return int(any(x for x in a[0][-7:]))
            if name == 'almell':
                return self.h('almell', self.r(tuple(a[:2]))) % (max(0, int(a[2])) + 1)
            if name == 'exp':
                return math.exp(max(-50, min(50, a[0])))
            if name in ('cos', 'sin', 'log', 'floor', 'ceil', 'acos', 'atan2', 'tan', 'asin'):
                return getattr(math, name)(*a)
            if name == 'pow':
                return float(a[0]) ** a[1]
            if name == 'fdiv':
                return a[0] // a[1]
            if name == 'fmod':
                return a[0] % a[1]
            if name == 'round':
                return round(a[0])
            if name.startswith('sym:') and repr(a[-1]) < repr(a[-2]):
                a = a[:-2] + [a[-1], a[-2]]
            if name[:4] in ('ext:', 'sht:'):
                return self.linear(name, a, isint)
        except (ValueError, OverflowError, TypeError, ZeroDivisionError):
            pass
        return self.rnd(isint, 'fn', name, tuple(self.r(x) for x in a))


def close(a, b):
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        return a == b
    try:
        return abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b))
    except TypeError:
        return a == b


def equiv(a, b, n=6, assign=None, rng=(1, 4), where=None, ranges=None, tries=3000):
    """Are two terms equal under random interpretation?  Returns (bool, n_points)."""
    if a is b:
        return True, 0
    used = seeds = good = tried = 0
    for s in range(1, tries):
        rg = ranges(s) if callable(ranges) else ranges
        some = False
        for mode in ((0, 1, 2, 3) if seeds < 3 else (0,)):
            E = Eval(s, assign, rng, rg, mode)
            try:
                if where is not None and not E.val(where):
                    if not mode:
                        break
                    continue
                try:
                    x = E.val(a)
                except DivZero:
                    # not a number where the reference has a value
                    if mode == 3:
                        E.val(b)
                        return False, used + 1
                    raise
                y = E.val(b)
            except Undefined:
                continue
            some = True
            used += 1
            if not close(x, y):
                return False, used
            if not mode and not (isinstance(x, (int, float)) and abs(x) < 1e-14):
                good += 1
        seeds += some
        # interpretations under which the value does not vanish are the informative ones
        if seeds >= n and (good >= n - 2 or seeds >= 12 * n):
            break
    return (True, used) if used else (None, 0)
