"""Abstract semantics of the builtins, numpy, healpy, ducc0 and the native library for pyeval."""
from fractions import Fraction
from . import terms as T
from .terms import (num, sym, fn, refn, add, sub, mul, div, neg, eq, lt, le, and_, or_, not_, ite,
                    TRUE, FALSE, ZERO, ONE, Term)
from .pyeval import (UNSET, Dead, Opq, Ch, Buf, MDim, dimt, dimfull, Arr, PyList, PyDict, Func, Class,
                     Inst, Handle, Bound, Module, Builtin, Exc, Slice, ELLIPSIS, num_, ci, PYEXC)

PI = num(3.141592653589793)
BUILTINS = {'len', 'range', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'zip',
            'enumerate', 'isinstance', 'getattr', 'setattr', 'hasattr', 'min', 'max', 'sum', 'abs',
            'round', 'type', 'print', 'sorted', 'reversed', 'any', 'all', 'map', 'filter', 'id',
            'super', 'object', 'property', 'classmethod', 'staticmethod', 'repr', 'iter', 'next',
            'callable', 'divmod', 'pow', 'complex', 'slice', 'vars', 'frozenset', 'open', 'hash',
            'NotImplemented', 'issubclass', 'format', 'bytes'} | PYEXC
CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}
INTT = ('int32', 'int64', 'uint64', 'uint32', 'int', 'int16', 'int8', 'intc', 'intp', 'uint8', 'int_')
UFUNC = {'sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'arccos', 'arcsin', 'arctan', 'fabs', 'abs', 'floor',
         'ceil', 'conj', 'conjugate', 'real', 'imag', 'square', 'absolute', 'log10', 'rint', 'sign',
         'isnan', 'isfinite', 'radians', 'deg2rad', 'degrees', 'rad2deg', 'negative', 'logical_not',
         'isinf', 'round', 'around', 'int32', 'int64', 'uint64', 'float64', 'arccosh', 'cosh', 'sinh',
         'tanh', 'invert', 'nan_to_num', 'reciprocal', 'intc', 'float32', 'complex128', 'bool_', 'int_'}
UBIN = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div',
        'power': 'Pow', 'floor_divide': 'FloorDiv', 'mod': 'Mod', 'remainder': 'Mod', 'maximum': 'max',
        'minimum': 'min', 'logical_and': 'and', 'logical_or': 'or', 'fmax': 'max', 'fmin': 'min',
        'arctan2': 'arctan2', 'float_power': 'Pow'}


def dname(d):
    if isinstance(d, Builtin):
        return d.name.split('.')[-1]
    if isinstance(d, str):
        return {'f8': 'float64', 'i4': 'int32', 'i8': 'int64', 'u8': 'uint64', 'float': 'float64',
                'd': 'float64'}.get(d, d)
    return ''


class Lib(object):
    def __init__(self, I):
        self.I = I
        self.uid = 0

    # ------------------------------------------------------------ values
    def key(self, v):
        """a value as a term"""
        if isinstance(v, Term):
            return num_(v)
        if v is None:
            return T.str_('None')
        if isinstance(v, str):
            return T.str_(v)
        if isinstance(v, Arr):
            return v.whole()
        if type(v) is tuple:
            if v and all(isinstance(x, Term) for x in v):
                return self.toarr(v).whole()
            return fn('tuple', tuple(self.key(x) for x in v))
        if isinstance(v, PyList):
            a = self.toarr(v, soft=True)
            if isinstance(a, Arr):
                return a.whole()
            return fn('tuple', tuple(self.key(x) for x in v.items))
        if isinstance(v, Handle):
            return v.term
        if isinstance(v, Inst):
            return getattr(v, 'key', None) or fn('inst', (num(v.id),))
        if isinstance(v, Opq):
            return v.term
        if isinstance(v, Builtin):
            return T.str_(v.name)
        if isinstance(v, Ch):
            out = self.key(v.alts[-1][1])
            for c, w in reversed(v.alts[:-1]):
                out = ite(c, self.key(w), out)
            return out
        if v is UNSET:
            return T.str_('unset')
        return fn('?' + type(v).__name__, (num(self.new()),))

    def new(self):
        self.uid += 1
        return self.uid

    def fresh(self, shape, f, dtype='f8', kind='fresh', name=''):
        cache = {}

        def g(ix):
            r = cache.get(ix)
            if r is None:
                r = cache[ix] = f(ix)
            return r
        return Arr(Buf(shape, g, kind, name, dtype))

    def scalar(self, v):
        """term of a scalar value"""
        if isinstance(v, Term):
            return v
        if isinstance(v, Opq):
            return v.term
        if isinstance(v, Arr) and not v.shape:
            return v.at(())
        if isinstance(v, Arr) and all(ci(dimt(d)) == 1 for d in v.shape):
            return v.at([ZERO] * len(v.shape))
        return None

    def opaque(self, name, shape, args, isint=False, dtype='f8', kind='fresh'):
        """uninterpreted array-valued function of the arguments"""
        ks = tuple(self.key(a) for a in args)
        return self.fresh(shape, lambda ix: fn(name, tuple(ix) + ks, isint), dtype, kind)

    def toarr(self, v, soft=False):
        """array from nested sequences (copy); arrays themselves are returned unchanged"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, Ch):
            # alternatives of equal rank
            arrs = [(c, self.toarr(w, soft)) for c, w in v.alts]
            if all(isinstance(a, Arr) for c, a in arrs) and len(set(len(a.shape) for c, a in arrs)) == 1:
                sh = []
                for i in range(len(arrs[0][1].shape)):
                    d = dimt(arrs[-1][1].shape[i])
                    for c, a in reversed(arrs[:-1]):
                        d = ite(c, dimt(a.shape[i]), d)
                    sh.append(d)
                sn = [(c, a.snap()) for c, a in arrs]

                def f(ix):
                    r = num_(sn[-1][1](ix))
                    for c, s in reversed(sn[:-1]):
                        r = ite(c, num_(s(ix)), r)
                    return r
                return self.fresh(sh, f)
            return v
        if isinstance(v, PyList) and v.more is not None:
            return v.more
        if isinstance(v, (PyList,)) or type(v) is tuple:
            it = self.I.iterate(v)
            if it is None:
                if type(v) is tuple and v[0] == 'range':
                    lo, hi, st = v[1:]
                    return self.arange(lo, hi, st)
                return v
            subs = [self.toarr(x, soft) for x in it]
            if any(isinstance(x, Opq) for x in subs):
                return Opq('array')
            if all(isinstance(x, Term) for x in subs):
                n = len(subs)
                isint = all(x.isint for x in subs)
                return self.fresh((num(n),), lambda ix, subs=subs: pick(subs, ix[0]),
                                  'i8' if isint and n else 'f8')
            subs = [self.fresh((), lambda ix, x=x: x) if isinstance(x, Term) else x for x in subs]
            if not all(isinstance(x, Arr) for x in subs):
                return v if soft else Opq('array')
            nd = len(subs[0].shape)
            if any(len(x.shape) != nd for x in subs):
                if soft:
                    return v
                self.I.throw('ValueError')
            for x in subs[1:]:
                for d, e in zip(subs[0].shape, x.shape):
                    if dimt(d) is not dimt(e) and not soft:
                        self.I.throw('ValueError', cond=not_(eq(dimt(d), dimt(e))))
            sn = [x.snap() for x in subs]
            return self.fresh((num(len(subs)),) + subs[0].shape,
                              lambda ix: pickf(sn, ix), subs[0].dtype)
        return v

    def arange(self, lo, hi, st, dtype='i8'):
        n = sub(hi, lo)
        s = ci(st)
        if s != 1:
            n = refn('fdiv', (add(n, sub(st, ONE)), st), True) if s and s > 0 else \
                refn('fdiv', (add(n, add(st, ONE)), st), True)
        if ci(n) is not None and ci(n) < 0:
            n = ZERO
        return self.fresh((n,), lambda ix: add(lo, mul(ix[0], st)), dtype)

    # ------------------------------------------------------------ elementwise
    def shape_of(self, vals):
        nd = max(len(v.shape) for v in vals if isinstance(v, Arr))
        out = []
        for k in range(1, nd + 1):
            d = ONE
            for v in vals:
                if isinstance(v, Arr) and len(v.shape) >= k:
                    e = v.shape[-k]
                    if ci(dimt(e)) == 1 and not isinstance(e, MDim):
                        continue
                    if dimt(d) is ONE and not isinstance(d, MDim):
                        d = e
                    elif dimt(d) is not dimt(e):
                        self.I.throw('ValueError', cond=not_(eq(dimt(d), dimt(e))))
            out.append(d)
        return tuple(reversed(out))

    def bcast(self, v, nd):
        """content of v as a function of an index tuple of length nd"""
        if not isinstance(v, Arr):
            return lambda ix: v
        s = v.snap()
        sh = v.shape
        one = [ci(dimt(d)) == 1 and not isinstance(d, MDim) for d in sh]
        k = len(sh)
        if not any(one):
            return (lambda ix: s(ix[len(ix) - k:])) if k != nd else s
        return lambda ix: s(tuple(ZERO if one[i] else ix[len(ix) - k + i] for i in range(k)))

    def elementwise(self, f, vals, dtype=None):
        vals = [self.toarr(v) if isinstance(v, (PyList, Ch)) or type(v) is tuple else v for v in vals]
        for v in vals:
            if not isinstance(v, (Term, Arr)):
                return v if isinstance(v, Opq) else Opq('ufunc')
        if not any(isinstance(v, Arr) for v in vals):
            return f(*vals)
        sh = self.shape_of(vals)
        bs = [self.bcast(v, len(sh)) for v in vals]
        if dtype is None:
            dtype = 'f8'
            ds = [(v.dtype if isinstance(v, Arr) else ('i?' if v.isint else 'f8')) for v in vals]
            if all(d in ('i8', 'i4', 'u8', 'i?') for d in ds):
                dtype = 'i?' if 'i?' in ds else 'i8'
        return self.fresh(sh, lambda ix: f(*[b(ix) for b in bs]), dtype)

    def scal2(self, op, a, b):
        if op not in ('BitAnd', 'BitOr', 'BitXor', 'and', 'or') or not (T.isbool(a) and T.isbool(b)):
            a, b = num_(a), num_(b)
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            if T.cval(b) == 0:
                return fn('nan', ())
            return div(a, b)
        if op == 'FloorDiv':
            if T.cval(b) == 0:
                self.I.throw('ZeroDivisionError')
            return a if b is ONE else refn('fdiv', (a, b), a.isint and b.isint)
        if op == 'Mod':
            return refn('fmod', (a, b), a.isint and b.isint)
        if op == 'Pow':
            k = T.cval(b)
            if k is not None and k.denominator == 1 and abs(k) <= 8:
                r = ONE
                for i in range(abs(int(k))):
                    r = mul(r, a)
                return r if k >= 0 else div(ONE, r)
            if k == Fraction(1, 2):
                return refn('sqrt', (a,))
            if k is not None and T.cval(a) is not None and T.cval(a) > 0:
                return num(float(T.cval(a)) ** float(k))
            return refn('pow', (a, b))
        if op == 'BitAnd':
            if T.isbool(a) and T.isbool(b):
                return and_(a, b)
            return refn('bitand', (a, b), True)
        if op in ('BitOr', 'or'):
            if T.isbool(a) and T.isbool(b):
                return or_(a, b)
            return or_(T.truth(a), T.truth(b)) if op == 'or' else refn('bitor', (a, b), True)
        if op == 'and':
            return and_(T.truth(a), T.truth(b))
        if op in ('max', 'min'):
            return T.minmax(op, a, b)
        if op == 'arctan2':
            return refn('atan2', (a, b))
        return fn('op:' + op, (a, b), a.isint and b.isint)

    def binop(self, op, a, b):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq('binop')
        if op == 'Add' and isinstance(a, PyList) and isinstance(b, PyList):
            if a.more is None and b.more is None:
                return PyList(a.items + b.items)
            return Opq('list')
        if op == 'Add' and type(a) is tuple and type(b) is tuple:
            return a + b
        if op == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == 'Add' and (isinstance(a, str) or isinstance(b, str)):
            if isinstance(a, Term) and a.op == 'fn' or isinstance(b, Term) and b.op == 'fn':
                return fn('strcat', (self.key(a), self.key(b)))
            self.I.throw('TypeError')
        if op == 'Mod' and isinstance(a, str):
            return a
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (PyList, str)) or type(x) is tuple:
                    k = ci(y)
                    if k is None and not isinstance(y, Arr):
                        if isinstance(x, PyList) and len(x.items) == 1 and isinstance(x.items[0], Term):
                            v = x.items[0]
                            return self.fresh((y,), lambda ix: v)
                        return Opq('repeat')
                    if k is not None:
                        return PyList(x.items * k) if isinstance(x, PyList) else x * k
        if op == 'MatMult':
            return self.dot(a, b)
        if a is None or b is None or isinstance(a, (str, Inst, Handle)) or \
                isinstance(b, (str, Inst, Handle)):
            for x, y, m in ((a, b, '__%s__'), (b, a, '__r%s__')):
                if isinstance(x, Inst):
                    r = x.cls.lookup(m % {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul',
                                          'Div': 'truediv'}.get(op, op.lower()))
                    if r:
                        return self.I.call(Bound(x, r[0]), [y], {}, None)
            self.I.throw('TypeError')
        if isinstance(a, Term) and isinstance(b, Term) and op in ('FloorDiv', 'Mod', 'Div') and \
                T.cval(b) == 0:
            self.I.throw('ZeroDivisionError')
        dt = None
        if op == 'Div':
            dt = 'f8'
        elif isinstance(a, Arr) and a.dtype == 'b1' and isinstance(b, (Arr, Term)):
            dt = 'b1' if op.startswith('Bit') and getattr(b, 'dtype', 'b1') == 'b1' else None
        if isinstance(a, (Term, Arr, PyList, Ch)) or type(a) is tuple:
            return self.elementwise(lambda x, y: self.scal2(op, x, y), [a, b], dt)
        return Opq('binop')

    def unop(self, op, v):
        if isinstance(v, Opq):
            return v
        if op == 'USub':
            return self.elementwise(lambda x: neg(num_(x)), [v])
        if op == 'UAdd':
            return v
        if op == 'Invert':
            return self.elementwise(lambda x: not_(x) if T.isbool(x) else sub(neg(x), ONE), [v],
                                    getattr(v, 'dtype', None))
        return Opq('unop')

    def scalcmp(self, op, a, b):
        a, b = num_(a), num_(b)
        if op == 'Eq':
            return eq(a, b)
        if op == 'NotEq':
            return not_(eq(a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'LtE':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        return le(b, a)

    def compare(self, op, a, b):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return T.truth(Opq('cmp').term)
        if isinstance(a, Inst) or isinstance(b, Inst):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Inst):
                    r = x.cls.lookup('__ne__' if op == 'NotEq' else '__eq__')
                    if r is not None and op in ('Eq', 'NotEq'):
                        return self.I.truth(self.I.call(Bound(x, r[0]), [y], {}, None))
                    r = x.cls.lookup('__eq__')
                    if r is not None and op == 'NotEq':
                        return not_(self.I.truth(self.I.call(Bound(x, r[0]), [y], {}, None)))
            r = TRUE if a is b else FALSE
            return r if op == 'Eq' else not_(r)
        if isinstance(a, Builtin) and isinstance(b, Builtin) and op in ('Eq', 'NotEq'):
            r = TRUE if a == b or dname(a) == dname(b) else FALSE
            return r if op == 'Eq' else not_(r)
        if isinstance(a, (Builtin, Class, Handle)) or isinstance(b, (Builtin, Class, Handle)):
            r = TRUE if a is b else FALSE
            return r if op == 'Eq' else not_(r)
        if isinstance(a, str) and isinstance(b, str):
            r = TRUE if a == b else FALSE
            return r if op == 'Eq' else not_(r) if op == 'NotEq' else T.truth(Opq('str').term)
        for x, y in ((a, b), (b, a)):
            # a string given by the caller
            if isinstance(x, str) and isinstance(y, Term) and not T.isbool(y) and \
                    T.cval(y) is None and y.op in ('sym', 'fn') and getattr(y, 'op', '') == 'sym' and \
                    y.args[0].startswith('str:'):
                r = T.truth(fn('streq', (y, T.str_(x))))
                return r if op == 'Eq' else not_(r)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if op in ('Eq', 'NotEq'):
                r = TRUE if a is b else FALSE
                return r if op == 'Eq' else not_(r)
            self.I.throw('TypeError')
        if type(a) is tuple and type(b) is tuple or isinstance(a, PyList) and isinstance(b, PyList):
            x, y = self.I.iterate(a), self.I.iterate(b)
            if x is None or y is None:
                return T.truth(Opq('cmp').term)
            if op in ('Eq', 'NotEq'):
                r = and_(TRUE, *[self.I.truth(self.compare('Eq', p, q)) for p, q in zip(x, y)]) \
                    if len(x) == len(y) else FALSE
                return r if op == 'Eq' else not_(r)
            return T.truth(Opq('cmp').term)
        if (type(a) is tuple or isinstance(a, PyList)) != (type(b) is tuple or isinstance(b, PyList)) \
                and not isinstance(a, Arr) and not isinstance(b, Arr):
            return FALSE if op == 'Eq' else TRUE
        return self.elementwise(lambda x, y: self.scalcmp(op, x, y), [a, b], 'b1')

    # ------------------------------------------------------------ indexing
    def subscript(self, o, k):
        I = self.I
        if isinstance(o, Ch):
            return I.lift(lambda x: self.subscript(x, k), o)
        if isinstance(o, Opq):
            return Opq('item')
        if isinstance(o, PyList) and o.more is not None:
            return self.subscript(o.more, k)
        if isinstance(o, (PyList, str)) or type(o) is tuple:
            if type(o) is tuple and o and isinstance(o[0], str) and o[0] in ('range', 'zip', 'enumerate'):
                it = I.iterate(o)
                if it is None:
                    if o[0] == 'range':
                        return add(o[1], mul(k[0], o[3]))
                    return Opq('item')
                o = tuple(it)
            items = o.items if isinstance(o, PyList) else o
            kk = k[0]
            if isinstance(kk, Slice):
                b = [None if x is None else ci(x) for x in (kk.lo, kk.hi, kk.st)]
                if any(x is not None and y is None for x, y in zip((kk.lo, kk.hi, kk.st), b)):
                    return Opq('slice')
                r = items[slice(*b)]
                return PyList(r) if isinstance(o, PyList) else r
            i = ci(kk)
            if i is None:
                kt = self.scalar(kk)
                if isinstance(kt, Term) and items and all(isinstance(x, Term) for x in items):
                    return pick(list(items), kt)
                if isinstance(kk, Term) and items:
                    out = items[-1]
                    for j in reversed(range(len(items) - 1)):
                        out = I.merge(eq(kk, num(j)), items[j], out)
                    return out
                return Opq('item')
            if not -len(items) <= i < len(items):
                I.throw('IndexError')
            return items[i]
        if isinstance(o, PyDict):
            kk = k[0] if len(k) == 1 else tuple(k)
            if I.hashable(kk) and kk in o.items:
                return o.items[kk]
            if '?' in o.items:
                return Opq('item')
            if isinstance(kk, (str,)) or ci(kk) is not None:
                I.throw('KeyError')
            # key given by an unknown value
            out, rest = UNSET, TRUE
            conds = []
            for q, v in o.items.items():
                c = I.truth(self.compare('Eq', kk, q))
                conds.append((c, v))
            I.throw('KeyError', cond=not_(or_(FALSE, *[c for c, v in conds])))
            for c, v in reversed(conds):
                out = v if out is UNSET else I.merge(c, v, out)
            return out
        if isinstance(o, Builtin) and o.name == 'os.environ':
            k0 = k[0]
            t = fn('env', (self.key(k0),))
            I.throw('KeyError', cond=not_(T.truth(fn('in:os.environ', (self.key(k0),)))))
            return t
        if isinstance(o, Arr):
            return self.view(o, k)
        if isinstance(o, Term) and not T.isbool(o) and o.op in ('fn', 'sym') and not o.isint and \
                o.op == 'sym' and o.args[0].startswith('str:'):
            return Opq('item')
        if isinstance(o, Term) or o is None:
            I.throw('TypeError')
        if isinstance(o, Inst):
            r = o.cls.lookup('__getitem__')
            if r:
                return I.call(Bound(o, r[0]), [k[0] if len(k) == 1 else tuple(k)], {}, None)
        return Opq('item')

    def clip(self, x, n):
        """slice bound x (not None) within [0, n]"""
        c = ci(x)
        if c is not None and c < 0:
            x = add(n, x)
            if ci(n) is not None and ci(x) < 0:
                return ZERO
            return x
        if x is n:
            return x
        if ci(x) == 0:
            return x
        if T.implies(self.I.pc, le(x, n)):
            return x
        if T.implies(self.I.pc, le(n, x)):
            return n
        d = T.cval(sub(n, x))
        if d is not None:
            return x if d >= 0 else n
        return T.minmax('min', x, n)

    def view(self, a, k):
        k = list(k)
        I = self.I
        # expand the ellipsis
        used = sum(1 for x in k if x is not None and x is not ELLIPSIS)
        for x in k:
            if isinstance(x, Arr) and x.dtype == 'b1' and len(x.shape) > 1:
                used += len(x.shape) - 1
        if any(x is ELLIPSIS for x in k):
            i = [j for j, x in enumerate(k) if x is ELLIPSIS][0]
            k[i:i + 1] = [Slice(None, None, None)] * (len(a.shape) - used)
        else:
            k += [Slice(None, None, None)] * (len(a.shape) - used)
        if used > len(a.shape):
            I.throw('IndexError')
        shape, ops = [], []       # ops per own axis: ('int', t) ('sl', view axis, lo, step) ...
        fancy = None
        ax = 0
        for x in k:
            if x is None:
                shape.append(ONE)
                continue
            d = a.shape[ax]
            n = dimt(d)
            if isinstance(x, PyList) or (type(x) is tuple):
                x = self.toarr(x)
            if isinstance(x, Arr) and not x.shape:
                x = x.at(())
            if isinstance(x, Opq):
                return Opq('index')
            if isinstance(x, Term) and T.isbool(x):
                return Opq('index')
            if isinstance(x, Term):
                c = ci(x)
                if c is not None and c < 0:
                    x = add(n, x)
                if ci(x) is not None and ci(n) is not None and not 0 <= ci(x) < ci(n):
                    I.throw('IndexError')
                elif ci(x) is not None and ci(n) is None and not T.implies(I.pc, lt(x, n)):
                    pass
                ops.append(('int', x))
            elif isinstance(x, Slice):
                st = 1 if x.st is None else ci(x.st)
                if st is None or isinstance(d, MDim) and (x.lo is not None or x.hi is not None or st != 1):
                    return Opq('slice')
                if isinstance(d, MDim):
                    ops.append(('sl', len(shape), ZERO, 1, None))
                    shape.append(d)
                elif st > 0:
                    lo = ZERO if x.lo is None else self.clip(x.lo, n)
                    hi = n if x.hi is None else self.clip(x.hi, n)
                    ln = sub(hi, lo)
                    if ci(ln) is not None and ci(ln) < 0:
                        ln = ZERO
                    elif ci(ln) is None and hi is not n and not T.implies(I.pc, le(lo, hi)):
                        ln = T.minmax('max', ZERO, ln) if T.cval(lo) != 0 else ln
                    if st > 1:
                        ln = refn('fdiv', (add(ln, num(st - 1)), num(st)), True)
                    ops.append(('sl', len(shape), lo, st, ln))
                    shape.append(ln)
                else:
                    if x.lo is not None or x.hi is not None or st != -1:
                        return Opq('slice')
                    ops.append(('sl', len(shape), sub(n, ONE), -1, n))
                    shape.append(n)
            elif isinstance(x, Arr):
                m = getattr(x, 'maskidx', None)
                if m is not None or x.dtype == 'b1':
                    if m is None:
                        if len(x.shape) != 1:
                            return self.boolnd(a, x, k)
                        m = x.snap()
                        m = (lambda s: lambda i: s((i,)))(m)
                    md = MDim(d, (lambda m: lambda i: m(i))(m))
                    ops.append(('mask', len(shape), m))
                    shape.append(md)
                else:
                    if fancy is not None:
                        return Opq('index')
                    fancy = (ax, x)
                    ops.append(('fancy', len(shape), x.snap(), len(x.shape)))
                    shape += list(x.shape)
            elif isinstance(x, Ch):
                return Opq('index')
            else:
                return Opq('index')
            ax += 1

        def imap(ix):
            out = []
            for o in ops:
                if o[0] == 'int':
                    out.append(o[1])
                elif o[0] == 'sl':
                    v = ix[o[1]]
                    out.append(add(o[2], v if o[3] == 1 else mul(v, num(o[3]))))
                elif o[0] == 'mask':
                    out.append(ix[o[1]])
                else:
                    out.append(num_(o[2](tuple(ix[o[1]:o[1] + o[3]]))))
            return tuple(out)

        def inv(bx):
            c = TRUE
            ix = [ZERO] * len(shape)
            for o, b in zip(ops, bx):
                if o[0] == 'int':
                    c = and_(c, eq(b, o[1]))
                elif o[0] == 'sl':
                    v = sub(b, o[2])
                    if o[3] == -1:
                        v = neg(v)
                    elif o[3] != 1:
                        c = and_(c, eq(refn('fmod', (v, num(o[3])), True), ZERO))
                        v = refn('fdiv', (v, num(o[3])), True)
                    ix[o[1]] = v
                    if o[4] is not None and not (o[2] is ZERO and o[3] == 1 and o[4] is full[id(o)]):
                        if o[3] != -1:
                            c = and_(c, le(o[2], b))
                            c = and_(c, lt(v, o[4]))
                elif o[0] == 'mask':
                    ix[o[1]] = b
                    c = and_(c, T.truth(o[2](b)))
            return c, tuple(ix)
        full = {id(o): dimt(a.shape[i]) for i, o in enumerate(ops)}
        if fancy is not None:
            s = a.snap()
            r = self.fresh(tuple(shape), lambda ix: s(imap(ix)), a.dtype)
            r.fancy = True
            return r
        if not shape and all(o[0] == 'int' for o in ops):
            r = a.at(imap(()))
            return r
        return a.view(tuple(shape), imap, inv)

    def boolnd(self, a, x, k):
        return Opq('index')

    def store(self, a, v):
        """a[...] = v for a view a"""
        I = self.I
        if isinstance(v, (PyList, Ch)) or type(v) is tuple:
            v = self.toarr(v)
        buf = a.buf
        if buf.kind != 'fresh':
            I.emit('write', buf.kind, (a,))
        if buf.owner is not None:
            I.emit('bufwrite', 'owned', (a,))
        if isinstance(v, Arr):
            # broadcasting of v to a
            if len(v.shape) > len(a.shape):
                extra = v.shape[:len(v.shape) - len(a.shape)]
                if not all(ci(dimt(d)) == 1 for d in extra):
                    I.throw('ValueError')
            for d, e in zip(reversed(a.shape), reversed(v.shape)):
                if ci(dimt(e)) == 1 or dimt(d) is dimt(e):
                    continue
                I.throw('ValueError', cond=not_(eq(dimt(d), dimt(e))))
            nd = len(a.shape)
            k = len(v.shape)
            one = [ci(dimt(d)) == 1 and not isinstance(d, MDim) for d in v.shape]
            s = v.snap()

            def val(ix):
                jx = (ZERO,) * max(0, k - nd) + tuple(ix[max(0, nd - k):])
                return s(tuple(ZERO if o else j for o, j in zip(one, jx)))
        else:
            t = self.scalar(v)
            if t is None:
                t = Opq('store').term
            if isinstance(v, (str,)) or v is None:
                I.throw('TypeError')

            def val(ix):
                return t
        if buf.dtype in ('i8', 'i4', 'u8', 'i?'):
            val0 = val
            tn = '?toint' if buf.dtype == 'i?' else 'toint'

            def val(ix):
                x = num_(val0(ix))
                return x if x.isint else refn(tn, (x,), True)
        old = buf.fn
        inv = a.inv
        if a.lost:
            u = self.new()
            new = lambda ix: fn('?store', (num(u),) + tuple(ix))    # noqa
        else:
            if inv is None:
                def inv(bx):
                    return TRUE, bx
            pc = I.live
            cache = {}

            def new(bx):
                r = cache.get(bx)
                if r is None:
                    c, ix = inv(bx)
                    if c is TRUE:
                        r = val(ix)
                    elif c is FALSE:
                        r = old(bx)
                    else:
                        r = ite(c, num_(val(ix)), num_(old(bx)))
                    cache[bx] = r
                return r
            if I.sym[0] is not None:
                k = I.sym[0]
                rel = and_(*[c for c in T.conj(I.pc) if k in T.free(c)])
                I.stlog.append((buf, k, old, inv, rel, val))
        I.wr_a(buf, 'fn', new)

    def setitem(self, o, k, v):
        # plain integer indices write one element
        k = tuple(k)
        for x in k:
            if isinstance(x, Opq):
                u = self.new()
                self.I.wr_a(o.buf, 'fn', lambda ix: fn('?store', (num(u),) + tuple(ix)))
                return
        kk = tuple(Slice(x, add(x, ONE), None) if isinstance(x, Term) and not T.isbool(x) and
                   ci(x) != -1 else (Slice(x, None, None) if isinstance(x, Term) and ci(x) == -1 else x)
                   for x in k)
        drop = [i for i, x in enumerate(k) if isinstance(x, Term) and not T.isbool(x)]
        a = self.view(o, kk)
        if not isinstance(a, Arr) or getattr(a, 'fancy', False):
            if o.buf.kind != 'fresh':
                self.I.emit('write', o.buf.kind, (o,))
            u = self.new()
            self.I.wr_a(o.buf, 'fn', lambda ix: fn('?store', (num(u),) + tuple(ix)))
            return
        if drop:
            # remove the axes of integer indices (length one)
            ell = [i for i, x in enumerate(k) if x is ELLIPSIS]
            n = len(a.shape)
            drop = [i if not ell or i < ell[0] else n - (len(k) - i) for i in drop]
            keep = [i for i in range(n) if i not in drop]

            def imap(ix):
                out = [ZERO] * n
                for q, i in zip(keep, ix):
                    out[q] = i
                return tuple(out)

            def inv(bx):
                return TRUE, tuple(bx[q] for q in keep)
            a = a.view(tuple(a.shape[i] for i in keep), imap, inv)
        self.store(a, v)

    # ------------------------------------------------------------ shapes
    def size(self, shape):
        r = ONE
        for d in shape:
            r = mul(r, dimt(d))
        return r

    def toshape(self, v, total=None):
        if isinstance(v, (PyList,)) or type(v) is tuple:
            out = [self.scalar(x) for x in self.I.iterate(v)]
        elif isinstance(v, Arr):
            n = ci(dimt(v.shape[0])) if v.shape else None
            out = [v.at((num(i),)) for i in range(n)] if n is not None else [None]
        else:
            out = [self.scalar(v)]
        if any(x is None for x in out):
            return None
        if total is not None:
            for i, x in enumerate(out):
                if ci(x) == -1:
                    rest = ONE
                    for j, y in enumerate(out):
                        if j != i:
                            rest = mul(rest, y)
                    out[i] = total if rest is ONE else (
                        refn('fdiv', (total, rest), True) if not self.divides(total, rest)
                        else div(total, rest))
                    q = out[i]
                    if not q.isint:
                        out[i] = refn('toint', (q,), True)
        return tuple(out)

    @staticmethod
    def divides(a, b):
        q = div(a, b)
        return all(k > 0 for m in T._poly(q) for a_, k in m) if q.op in ('poly', 'num', 'sym', 'fn') \
            else False

    def reshape(self, a, shape):
        tot = self.size(a.shape)
        sh = self.toshape(shape, tot)
        if sh is None:
            return Opq('reshape')
        new = self.size(sh)
        if new is not tot:
            self.I.throw('ValueError', cond=not_(eq(new, tot)))
        old = tuple(dimt(d) for d in a.shape)
        if any(isinstance(d, MDim) for d in a.shape):
            if len(a.shape) == 1 and len(sh) == 1:
                return a
            return Opq('reshape')
        groups = []
        i = j = 0
        while i < len(old) or j < len(sh):
            gi, gj = [], []
            po, pn = ONE, ONE
            while True:
                if gi and gj and po is pn:
                    break
                if not gi and i < len(old):
                    gi.append(i)
                    po = mul(po, old[i])
                    i += 1
                    continue
                if not gj and j < len(sh):
                    gj.append(j)
                    pn = mul(pn, sh[j])
                    j += 1
                    continue
                # extend whichever is smaller; prefer completing exactly
                done = False
                for which in (0, 1):
                    t, idx, dims, g = (po, i, old, gi) if which == 0 else (pn, j, sh, gj)
                    o = pn if which == 0 else po
                    q, kx = t, idx
                    while kx < len(dims):
                        q = mul(q, dims[kx])
                        kx += 1
                        if q is o:
                            done = True
                            for z in range(idx, kx):
                                g.append(z)
                            if which == 0:
                                po, i = q, kx
                            else:
                                pn, j = q, kx
                            break
                    if done:
                        break
                if done:
                    break
                if i < len(old):
                    gi.append(i)
                    po = mul(po, old[i])
                    i += 1
                elif j < len(sh):
                    gj.append(j)
                    pn = mul(pn, sh[j])
                    j += 1
                else:
                    break
            groups.append((gi, gj))
            if not gi and not gj:
                break

        def conv(src, dst, which):
            def f(ix):
                out = [ZERO] * len(dst)
                for g in groups:
                    gs, gd = (g[1], g[0]) if which else (g[0], g[1])
                    gs = [q for q in gs if ci(src[q]) != 1]
                    gd2 = [q for q in gd if ci(dst[q]) != 1]
                    if len(gs) == 1 and len(gd2) == 1:
                        out[gd2[0]] = ix[gs[0]]
                        continue
                    if len(gs) == len(gd2) and all(src[x] is dst[y] for x, y in zip(gs, gd2)):
                        for x, y in zip(gs, gd2):
                            out[y] = ix[x]
                        continue
                    flat = ZERO
                    for q in gs:
                        flat = add(mul(flat, src[q]), ix[q])
                    if len(gd2) == 1:
                        out[gd2[0]] = flat
                        continue
                    st = ONE
                    for z, q in reversed(list(enumerate(gd2))):
                        v = flat if st is ONE else refn('fdiv', (flat, st), True)
                        if z:
                            v = refn('fmod', (v, dst[q]), True)
                        out[q] = v
                        st = mul(st, dst[q])
                return tuple(out)
            return f
        fwd = conv(sh, old, True)
        bwd = conv(old, sh, False)
        return a.view(sh, fwd, lambda bx: (TRUE, bwd(bx)))

    def transpose(self, a, axes=None):
        n = len(a.shape)
        axes = list(reversed(range(n))) if axes is None else [x % n for x in axes]

        def imap(ix):
            out = [None] * n
            for i, p in enumerate(axes):
                out[p] = ix[i]
            return tuple(out)
        return a.view(tuple(a.shape[p] for p in axes), imap,
                      lambda bx: (TRUE, tuple(bx[p] for p in axes)))

    def copy(self, a, dtype=None):
        s = a.snap()
        dt = a.dtype
        if dtype is not None:
            nm = dname(dtype)
            if nm in INTT:
                s0 = s

                def s(ix):
                    x = num_(s0(ix))
                    return x if x.isint else refn('toint', (x,), True)
                dt = {'int32': 'i4', 'uint64': 'u8', 'intc': 'i4'}.get(nm, 'i8')
            elif nm in ('bool', 'bool_'):
                s0 = s
                s = lambda ix: T.truth(s0(ix))      # noqa
                dt = 'b1'
            elif nm in ('float32', 'single', 'float16', 'f4'):
                s0 = s
                s = lambda ix: fn('float32', (num_(s0(ix)),))     # noqa
                dt = 'f4'
            else:
                dt = 'f8'
                s0 = s
                s = lambda ix: num_(s0(ix))     # noqa
        return self.fresh(a.shape, s, dt)

    # ------------------------------------------------------------ reductions
    def reduce(self, kind, a, axis=None, keepdims=False):
        I = self.I
        if not isinstance(a, Arr):
            a = self.toarr(a)
        if isinstance(a, Term):
            return a
        if not isinstance(a, Arr):
            return Opq('reduce')
        n = len(a.shape)
        if axis is None:
            axes = list(range(n))
        else:
            ax = self.I.iterate(axis) if isinstance(axis, PyList) or type(axis) is tuple else [axis]
            axes = [ci(x) for x in ax]
            if None in axes:
                return Opq('axis')
            if any(not -n <= x < n for x in axes):
                I.throw('IndexError')
            axes = [x % n for x in axes]
        keep = [i for i in range(n) if i not in axes]
        s = a.snap()
        dims = [a.shape[i] for i in axes]

        def elem(ix):
            def at(jx):
                full = [None] * n
                for i, v in zip(keep, ix):
                    full[i] = v
                for i, v in zip(axes, jx):
                    full[i] = v
                return s(tuple(full))
            return self.red(kind, dims, at)
        if keepdims:
            sh = [ONE if i in axes else a.shape[i] for i in range(n)]
            return self.fresh(sh, lambda ix: elem(tuple(ix[i] for i in keep)),
                              'b1' if kind in ('any', 'all') else a.dtype)
        if not keep:
            return elem(())
        return self.fresh([a.shape[i] for i in keep], elem, 'b1' if kind in ('any', 'all') else a.dtype)

    def red(self, kind, dims, at):
        if kind == 'mean':
            cnt = self.size(dims)
            return div(self.red('sum', dims, at), cnt)
        if kind == 'all':
            return not_(self.red('any', dims, lambda jx: not_(T.truth(at(jx)))))
        cs = [ci(dimt(d)) if not isinstance(d, MDim) else None for d in dims]
        if kind == 'sum':
            def go(i, jx):
                if i == len(dims):
                    return num_(at(tuple(jx)))
                if cs[i] is not None and cs[i] <= 12:
                    r = ZERO
                    for q in range(cs[i]):
                        r = add(r, go(i + 1, jx + [num(q)]))
                    return r
                L = T.Loop(ZERO, dimt(dimfull(dims[i])), name='r')
                g = T.truth(dims[i].mask(L.sym)) if isinstance(dims[i], MDim) else TRUE
                return T.sum_(L, g, go(i + 1, jx + [L.sym]))
            return go(0, [])
        if all(c is not None for c in cs):
            tot = 1
            for c in cs:
                tot *= c
            if tot <= 512:
                import itertools
                vals = [at(tuple(num(q) for q in p)) for p in itertools.product(*[range(c) for c in cs])]
                if kind == 'any':
                    return or_(FALSE, *[T.truth(v) for v in vals])
                if kind in ('max', 'min') and vals:
                    r = num_(vals[0])
                    for v in vals[1:]:
                        r = T.minmax(kind, r, num_(v))
                    return r
                if kind == 'prod':
                    r = ONE
                    for v in vals:
                        r = mul(r, num_(v))
                    return r
        # maximum of an affine ramp
        probe = T.lam(tuple(dimt(dimfull(d)) for d in dims), at)
        body = probe.args[-1]
        if kind == 'any':
            if body is FALSE:
                return FALSE
            if not T.free(body) & {T.bvar(probe.args[0] + i) for i in range(probe.args[1])}:
                return T.truth(body)
            return T.truth(fn('any', (T.lam(tuple(dimt(dimfull(d)) for d in dims),
                                            lambda jx: num_(at(jx))),), True))
        if kind in ('max', 'min') and len(dims) == 1:
            b = T.bvar(probe.args[0])
            pl = T._poly(body) if body.op in ('poly', 'sym', 'num') else None
            if pl is not None:
                co = pl.get(((b, 1),))
                rest = T._frompoly({m: v for m, v in pl.items() if m != ((b, 1),)})
                if co is not None and b not in T.free(rest):
                    last = sub(dimt(dims[0]), ONE)
                    return add(rest, mul(num(co), last)) if (co > 0) == (kind == 'max') else rest
        isint = body.isint
        return fn('red:' + kind, (T.lam(tuple(dimt(dimfull(d)) for d in dims),
                                        lambda jx: num_(at(jx))),), isint)

    def dot(self, a, b):
        a, b = self.toarr(a), self.toarr(b)
        if isinstance(a, Term) or isinstance(b, Term):
            return self.binop('Mult', a, b)
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return Opq('dot')
        na, nb = len(a.shape), len(b.shape)
        if na == 0 or nb == 0:
            return self.binop('Mult', a, b)
        kb = max(0, nb - 2)
        d, e = a.shape[-1], b.shape[kb]
        if dimt(d) is not dimt(e):
            self.I.throw('ValueError', cond=not_(eq(dimt(d), dimt(e))))
        sa, sb = a.snap(), b.snap()
        sh = a.shape[:-1] + b.shape[:kb] + b.shape[kb + 1:]

        def elem(ix):
            ia, ib = tuple(ix[:na - 1]), tuple(ix[na - 1:])
            return self.red('sum', [d], lambda j: mul(num_(sa(ia + j)), num_(sb(ib[:kb] + j + ib[kb:]))))
        if not sh:
            return elem(())
        return self.fresh(sh, elem)

    def einsum(self, args):
        spec = args[0]
        ops = [self.toarr(x) for x in args[1:]]
        if not isinstance(spec, str) or not all(isinstance(x, Arr) for x in ops):
            return Opq('einsum')
        spec = spec.replace(' ', '')
        if '.' in spec:
            return Opq('einsum')
        ins, _, out = spec.partition('->')
        ins = ins.split(',')
        if '->' not in spec:
            al = ''.join(ins)
            out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
        dim = {}
        if len(ins) != len(ops) or any(len(i) != len(o.shape) for i, o in zip(ins, ops)):
            self.I.throw('ValueError')
        for i, o in zip(ins, ops):
            for c, d in zip(i, o.shape):
                if c in dim and dimt(dim[c]) is not dimt(d):
                    self.I.throw('ValueError', cond=not_(eq(dimt(dim[c]), dimt(d))))
                dim.setdefault(c, d)
        con = [c for c in dim if c not in out]
        sn = [o.snap() for o in ops]

        def elem(ix):
            env = dict(zip(out, ix))

            def at(jx):
                e2 = dict(env)
                e2.update(zip(con, jx))
                r = ONE
                for i, s in zip(ins, sn):
                    r = mul(r, num_(s(tuple(e2[c] for c in i))))
                return r
            return self.red('sum', [dim[c] for c in con], at) if con else at(())
        if not out:
            return elem(())
        return self.fresh([dim[c] for c in out], elem)

    def comprehend(self, r, k, hi):
        if isinstance(r, Term):
            return self.fresh((hi,), lambda ix: T.subst(r, {k: ix[0]}), 'i8' if r.isint else 'f8')
        if isinstance(r, Arr):
            s = r.snap()
            return self.fresh((hi,) + r.shape, lambda ix: T.subst(s(tuple(ix[1:])), {k: ix[0]}), r.dtype)
        return Opq('comprehension')

    # ------------------------------------------------------------ attributes
    def getattr(self, o, a, default=UNSET):
        I = self.I
        if isinstance(o, Builtin):
            nm = {'numpy': 'np', 'healpy': 'hp'}.get(o.name, o.name)
            full = nm + '.' + a
            if full == 'np.pi':
                return PI
            if full in ('np.newaxis',):
                return None
            if full in ('np.inf', 'np.nan', 'np.infty'):
                return fn(full, ())
            if full in ('np.e',):
                return num(2.718281828459045)
            return Builtin(full)
        if isinstance(o, Opq):
            return Opq('attr')
        if type(o) is tuple and o and isinstance(o[0], str) and o[0] == 'super':
            cls, me = o[1], o[2]
            for b in (cls.bases if cls else []):
                if isinstance(b, Class):
                    r = b.lookup(a)
                    if r is not None:
                        return Bound(me, r[0]) if isinstance(r[0], Func) else r[0]
            return Builtin('object.' + a)
        if isinstance(o, Arr):
            if a == 'shape':
                return tuple(dimt(d) for d in o.shape)
            if a == 'ndim':
                return num(len(o.shape))
            if a == 'size':
                return self.size(o.shape)
            if a == 'T':
                return self.transpose(o)
            if a == 'dtype':
                return Builtin({'f8': 'np.float64', 'i8': 'np.int64', 'i4': 'np.int32', 'b1': 'np.bool_',
                                'u8': 'np.uint64', 'f4': 'np.float32'}.get(o.dtype, 'np.float64'))
            if a in ('real',):
                return o
            if a == 'flat':
                return self.reshape(o, num(-1))
            if a in ARRM:
                return ('method', o, a)
            if a in ('base', 'flags', 'strides', 'imag', 'data', 'nbytes', 'itemsize'):
                return Opq('attr')
            if default is not UNSET:
                return default
            I.throw('AttributeError')
        if isinstance(o, (PyList, PyDict, str)) or type(o) is tuple:
            names = LISTM if isinstance(o, PyList) else DICTM if isinstance(o, PyDict) else \
                STRM if isinstance(o, str) else ('index', 'count')
            if a in names:
                return ('method', o, a)
            if default is not UNSET:
                return default
            I.throw('AttributeError')
        if isinstance(o, Term):
            if a in ('real', 'shape', 'ndim', 'size', 'dtype', 'T'):
                return {'real': o, 'shape': (), 'ndim': ZERO, 'size': ONE, 'T': o}.get(a, Builtin('np.float64'))
            if a in ('item', 'copy', 'astype', 'all', 'any', 'sum', 'flatten', 'conj', 'max', 'min', 'mean'):
                return ('method', o, a)
            if default is not UNSET:
                return default
            if o.op == 'fn' and o.args[0][0] == '?' or o.op == 'sym' and o.args[0].startswith('str:'):
                return ('method', o, a)
            I.throw('AttributeError')
        if isinstance(o, Exc):
            return Opq('exc')
        if isinstance(o, Func):
            if a == '__name__':
                return o.name
            return Opq('attr')
        if isinstance(o, Bound):
            if a == '__func__':
                return o.f
            if a == '__self__':
                return o.obj
        return Opq('attr')

    def release(self, h):
        I = self.I
        I.wr_a(h, 'freed', or_(h.freed, I.pc))
        for x in h.sub.values():
            if isinstance(x, Handle) and x.owner is h:
                self.release(x)

    def handleattr(self, o, a):
        I = self.I
        if a in o.sub:
            return o.sub[a]
        rec = I.prog.records.get(o.ctype) if getattr(I, 'prog', None) else None
        if o.freed is not FALSE:
            I.emit('uaf', a, (o,))
            I.effects[-1].cond = o.freed
        if a in ('thisown', 'this'):
            return Opq('swig')
        if rec is None:
            return fn('fld:' + a, (o.term,), True)
        ax = self.axiom(o, a)
        if ax is not None:
            return ax
        for name, ctype, desug in rec:
            if name == a:
                t = desug.replace('struct ', '').strip()
                if t.endswith('*'):
                    b = t[:-1].strip()
                    if b in I.prog.records or b.startswith('nmt_') or ctype.strip()[:-1].strip() in I.prog.records:
                        b = b if b in I.prog.records else ctype.strip()[:-1].strip()
                        h = Handle(b, fn('fld:' + a, (o.term,)), o)
                        o.sub[a] = h
                        return h
                    return Opq('swigptr')
                return fn('fld:' + a, (o.term,), t in ('int', 'long', 'unsigned int', 'size_t',
                                                      'unsigned long'))
        I.emit('noattr', a, (o,))
        I.throw('AttributeError')

    def axiom(self, o, a):
        """members of a flat-sky field are the arguments it is created with (C lemma alloc_flat)"""
        f = o if o.ctype == 'nmt_field_flat' else o.owner
        v = getattr(f, 'args', None) if isinstance(f, Handle) else None
        if v is None or not f.made.startswith('field_alloc_') or not f.made.endswith('_flat'):
            return None
        v = {k: x[0] for k, x in v.items()}

        def g(*ns):
            for x in ns:
                if isinstance(v.get(x), Term):
                    return v[x]
        nx, ny, sp = g('nx'), g('ny'), g('spin')
        if o.ctype == 'nmt_flatsky_info':
            return {'nx': nx, 'ny': ny, 'lx': g('lx'), 'ly': g('ly'),
                    'npix': mul(nx, ny) if nx is not None and ny is not None else None}.get(a)
        if a == 'npix' and nx is not None and ny is not None:
            return mul(nx, ny)
        if a == 'spin':
            return sp
        if a == 'nmaps' and sp is not None and ci(sp) is not None:
            return num(2 if ci(sp) else 1)
        if a == 'ntemp':
            if f.made != 'field_alloc_new_flat':
                return ZERO
            t = [x for x in v.values() if isinstance(x, Arr) and len(x.shape) == 3]
            return dimt(t[0].shape[0]) if t else None
        return None

    # ------------------------------------------------------------ builtins
    def builtin(self, n):
        return Builtin(n) if n in BUILTINS else None

    def tname(self, v):
        if isinstance(v, Arr):
            return 'np.ndarray'
        if isinstance(v, PyList):
            return 'list'
        if isinstance(v, PyDict):
            return 'dict'
        if type(v) is tuple:
            return 'tuple'
        if isinstance(v, str):
            return 'str'
        if v is None:
            return 'NoneType'
        if isinstance(v, Term):
            if T.isbool(v):
                return 'bool'
            if v.op == 'sym' and v.args[0].startswith('str:'):
                return 'str'
            return 'int' if v.isint else 'float'
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Opq):
            return None
        return type(v).__name__

    def isinst(self, v, t):
        if type(t) is tuple:
            return or_(FALSE, *[self.isinst(v, x) for x in t])
        if isinstance(v, Ch):
            return or_(FALSE, *[and_(c, self.isinst(w, t)) for c, w in v.alts])
        tn = self.tname(v)
        if tn is None:
            return T.truth(Opq('isinstance').term)
        if isinstance(t, Class):
            return TRUE if isinstance(v, Inst) and v.cls.isa(t) else FALSE
        if isinstance(t, Builtin):
            n = t.name
            if isinstance(v, Inst):
                return TRUE if n == 'object' else FALSE
            if n == 'object' or n == tn:
                return TRUE
            if n in ('np.integer', 'numbers.Integral') and tn == 'int':
                return TRUE
            if n in ('np.floating', 'numbers.Real', 'numbers.Number') and tn in ('int', 'float'):
                return TRUE if n != 'np.floating' or tn == 'float' else FALSE
            if n in ('collections.abc.Sequence', 'Sequence') and tn in ('list', 'tuple', 'str'):
                return TRUE
            if n == 'int' and tn == 'bool':
                return TRUE
            return FALSE
        return T.truth(Opq('isinstance').term)

    def length(self, v):
        I = self.I
        if isinstance(v, Ch):
            return I.lift(self.length, v)
        if isinstance(v, PyList):
            return dimt(v.more.shape[0]) if v.more is not None else num(len(v.items))
        if isinstance(v, PyDict):
            return num(len(v.items))
        if isinstance(v, str):
            return num(len(v))
        if type(v) is tuple:
            if v and isinstance(v[0], str) and v[0] == 'range':
                return sub(v[2], v[1]) if ci(v[3]) == 1 else Opq('len')
            return num(len(v))
        if isinstance(v, Arr):
            if not v.shape:
                I.throw('TypeError')
            return dimt(v.shape[0])
        if isinstance(v, Opq):
            return fn('?len', (v.term,), True)
        if isinstance(v, Inst):
            r = v.cls.lookup('__len__')
            if r:
                return I.call(Bound(v, r[0]), [], {}, None)
        I.throw('TypeError')

    def call(self, f, args, kw, n):
        nm = f.name
        I = self.I
        for i, a in enumerate(args):
            if isinstance(a, Ch) and not nm.startswith('lib.') and nm not in ('isinstance', 'print'):
                return I.lift(lambda x: self.call(f, args[:i] + [x] + args[i + 1:], kw, n), a)
        if nm.startswith('lib.'):
            return self.nativecall(nm[4:], args, kw)
        if nm.startswith('np.'):
            return self.numpy(nm[3:], list(args), dict(kw))
        if nm.startswith('hp.') or nm.startswith('ducc0.'):
            return self.external(nm, list(args), dict(kw))
        if nm in PYEXC:
            return Exc(nm)
        g = getattr(self, 'b_' + nm.replace('.', '_'), None)
        if g is not None:
            return g(*args, **kw) if not kw or nm in ('sorted', 'print', 'zip', 'enumerate', 'max', 'min',
                                                      'dict', 'sum', 'warnings.warn', 'int', 'round') \
                else g(*args)
        if nm.startswith('warnings.') or nm.startswith('logging.'):
            return None
        if nm.startswith('object.'):
            return None
        I.emit('unknown', nm, args)
        return Opq(nm)

    def b_len(self, v):
        return self.length(v)

    def b_range(self, *a):
        a = [self.scalar(x) for x in a]
        if any(x is None for x in a):
            return Opq('range')
        if len(a) == 1:
            return ('range', ZERO, a[0], ONE)
        return ('range', a[0], a[1], a[2] if len(a) > 2 else ONE)

    def b_int(self, v=ZERO, base=None):
        t = self.scalar(v)
        if t is None:
            if isinstance(v, str):
                try:
                    return num(int(v))
                except ValueError:
                    self.I.throw('ValueError')
            if isinstance(v, Opq):
                return fn('?int', (v.term,), True)
            self.I.throw('TypeError')
        t = num_(t)
        return t if t.isint else refn('toint', (t,), True)

    def b_float(self, v=ZERO):
        t = self.scalar(v)
        if t is None:
            if v is None or isinstance(v, (PyList, Arr)):
                self.I.throw('TypeError')
            return Opq('float')
        return num_(t)

    def b_bool(self, v=FALSE):
        return self.I.truth(v)

    def b_str(self, v=''):
        return v if isinstance(v, str) else fn('str', (self.key(v),))

    b_repr = b_str
    b_format = b_str

    def b_list(self, v=None):
        if v is None:
            return PyList([])
        it = self.I.iterate(v)
        if it is None:
            a = self.toarr(v)
            if isinstance(a, Arr):
                r = PyList([])
                r.more = self.copy(a)
                return r
            return Opq('list')
        return PyList(it)

    def b_tuple(self, v=()):
        it = self.I.iterate(v)
        return tuple(it) if it is not None else Opq('tuple')

    def b_set(self, v=()):
        return self.b_list(v)

    b_frozenset = b_set

    def b_dict(self, v=None, **kw):
        d = PyDict()
        if isinstance(v, PyDict):
            d.items.update(v.items)
        elif v is not None:
            it = self.I.iterate(v)
            if it is None:
                return Opq('dict')
            for x in it:
                p = self.I.iterate(x)
                d.items[p[0]] = p[1]
        d.items.update(kw)
        return d

    def b_zip(self, *a, **kw):
        return ('zip', tuple(a))

    def b_enumerate(self, v, start=ZERO):
        return ('enumerate', v, start)

    def b_isinstance(self, v, t):
        return self.isinst(v, t)

    def b_issubclass(self, a, b):
        if isinstance(a, Class) and isinstance(b, Class):
            return TRUE if a.isa(b) else FALSE
        return T.truth(Opq('issubclass').term)

    def b_getattr(self, o, a, d=UNSET):
        if not isinstance(a, str):
            return Opq('getattr')
        return self.I.getattr(o, a, d)

    def b_setattr(self, o, a, v):
        if isinstance(a, str):
            self.I.setattr(o, a, v)

    def b_hasattr(self, o, a):
        r = self.I.getattr(o, a, ELLIPSIS)
        return FALSE if r is ELLIPSIS else TRUE

    def b_min(self, *a, **kw):
        return self.mm('min', a, kw)

    def b_max(self, *a, **kw):
        return self.mm('max', a, kw)

    def mm(self, k, a, kw):
        if kw:
            return Opq(k)
        if len(a) == 1:
            it = self.I.iterate(a[0])
            if it is None:
                return self.reduce(k, a[0])
            a = it
        a = [self.scalar(x) for x in a]
        if any(x is None for x in a) or not a:
            return Opq(k)
        r = num_(a[0])
        for x in a[1:]:
            r = T.minmax(k, r, num_(x))
        return r

    def b_sum(self, v, start=ZERO):
        it = self.I.iterate(v)
        if it is None:
            r = self.reduce('sum', v, ZERO)
            return self.binop('Add', start, r) if start is not ZERO else r
        r = start
        for x in it:
            r = self.binop('Add', r, x)
        return r

    def b_abs(self, v):
        return self.ufunc('abs', v)

    def b_pow(self, a, b):
        return self.binop('Pow', a, b)

    def b_round(self, v, nd=None, **kw):
        t = self.scalar(v)
        if t is None:
            return Opq('round')
        c = T.cval(t)
        if c is not None:
            return num(round(float(c)) if nd is None else round(float(c), ci(nd) or 0))
        return fn('round', (t,), nd is None)

    def b_divmod(self, a, b):
        return (self.binop('FloorDiv', a, b), self.binop('Mod', a, b))

    def b_type(self, v, *a):
        if isinstance(v, Inst):
            return v.cls
        t = self.tname(v)
        return Builtin(t) if isinstance(t, str) else Opq('type')

    def b_print(self, *a, **kw):
        return None

    def b_sorted(self, v, **kw):
        it = self.I.iterate(v)
        if it is not None and not kw and all(ci(x) is not None for x in it):
            return PyList(sorted(it, key=ci))
        return Opq('sorted')

    def b_reversed(self, v):
        it = self.I.iterate(v)
        return PyList(it[::-1]) if it is not None else Opq('reversed')

    def b_any(self, v):
        it = self.I.iterate(v)
        return or_(FALSE, *[self.I.truth(x) for x in it]) if it is not None else self.reduce('any', v)

    def b_all(self, v):
        it = self.I.iterate(v)
        return and_(TRUE, *[self.I.truth(x) for x in it]) if it is not None else self.reduce('all', v)

    def b_map(self, f, *its):
        l = [self.I.iterate(x) for x in its]
        if any(x is None for x in l):
            return Opq('map')
        return PyList([self.I.call(f, list(x), {}, None) for x in zip(*l)])

    def b_filter(self, f, it):
        l = self.I.iterate(it)
        if l is None:
            return Opq('filter')
        out = []
        for x in l:
            c = self.I.truth(x if f is None else self.I.call(f, [x], {}, None))
            if c is TRUE:
                out.append(x)
            elif c is not FALSE:
                return Opq('filter')
        return PyList(out)

    def b_id(self, v):
        return fn('id', (num(id(v) % 1000003),), True)

    def b_callable(self, v):
        return TRUE if isinstance(v, (Func, Bound, Class, Builtin)) else FALSE

    def b_slice(self, *a):
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_vars(self, o):
        return PyDict(o.attrs) if isinstance(o, Inst) else Opq('vars')

    def b_warnings_warn(self, *a, **kw):
        return None

    def b_os_environ_get(self, k, d=None):
        return Opq('env')

    def b_copy_copy(self, v):
        if isinstance(v, Arr):
            return self.copy(v)
        if isinstance(v, PyList):
            return PyList(v.items)
        return v if not isinstance(v, (Inst, PyDict)) else Opq('copy')

    def b_copy_deepcopy(self, v):
        if isinstance(v, Arr):
            return self.copy(v)
        if isinstance(v, PyList):
            return PyList([self.b_copy_deepcopy(x) for x in v.items])
        return v if not isinstance(v, (Inst, PyDict)) else Opq('copy')

    # ------------------------------------------------------------ methods
    def method(self, o, a, args, kw, n):
        I = self.I
        if isinstance(o, Term) and (o.op == 'sym' and o.args[0].startswith('str:') or o.op == 'fn' and
                                    o.args[0][0] == '?'):
            return Opq('strmethod')
        if isinstance(o, Term):
            if a == 'astype':
                return self.ufunc(dname(args[0]), o)
            if a in ('all', 'any', 'sum', 'item', 'copy', 'conj', 'max', 'min', 'mean'):
                return o
            return self.fresh((ONE,), lambda ix: o)
        if isinstance(o, Arr):
            if a == 'copy':
                return self.copy(o)
            if a in ('flatten',):
                return self.copy(self.reshape(o, num(-1)))
            if a == 'ravel':
                return self.reshape(o, num(-1))
            if a == 'reshape':
                return self.reshape(o, args[0] if len(args) == 1 else tuple(args))
            if a == 'astype':
                d = args[0] if args else kw.get('dtype')
                if 'copy' in kw and I.truth(kw['copy']) is FALSE:
                    nm = dname(d)
                    same = {'f8': ('float64', 'float'), 'i4': ('int32', 'intc'), 'i8': ('int64', 'int'),
                            'u8': ('uint64',), 'b1': ('bool', 'bool_')}.get(o.dtype, ())
                    if nm in same:
                        return o
                return self.copy(o, d)
            if a == 'transpose':
                ax = args[0] if len(args) == 1 and not isinstance(args[0], Term) else tuple(args)
                ax = [ci(x) for x in I.iterate(ax)] if ax not in ((), None) else None
                return self.transpose(o, ax or None)
            if a == 'swapaxes':
                ax = list(range(len(o.shape)))
                i, j = ci(args[0]) % len(ax), ci(args[1]) % len(ax)
                ax[i], ax[j] = ax[j], ax[i]
                return self.transpose(o, ax)
            if a in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod'):
                return self.reduce(a, o, args[0] if args else kw.get('axis'),
                                   I.truth(kw.get('keepdims', FALSE)) is TRUE)
            if a == 'fill':
                self.store(o, args[0])
                return None
            if a == 'dot':
                return self.dot(o, args[0])
            if a == 'tolist':
                return self.b_list(o)
            if a == 'item':
                return self.scalar(o) or Opq('item')
            if a in ('conj', 'conjugate', 'round'):
                return self.ufunc('conj', o) if a != 'round' else self.ufunc('round', o)
            if a == 'squeeze':
                return self.squeeze(o)
            if a == 'cumsum':
                return self.numpy('cumsum', [o], {})
            if a == 'nonzero':
                return self.numpy('where', [o], {})
            if a == 'repeat':
                return self.numpy('repeat', [o] + args, kw)
            if a in ('byteswap', 'newbyteorder', 'view'):
                return o
            if a == 'sort':
                u = self.new()
                if o.buf.kind != 'fresh':
                    I.emit('write', o.buf.kind, (o,))
                I.wr_a(o.buf, 'fn', lambda ix: fn('?sorted', (num(u),) + tuple(ix)))
                return None
            return Opq('arr.' + a)
        if isinstance(o, PyList):
            if a in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort'):
                I.mutated(o)
                it = list(o.items)
                if a == 'append':
                    I.wr_a(o, 'items', it + [args[0]])
                    return None
                if a == 'extend':
                    x = I.iterate(args[0])
                    I.wr_a(o, 'items', it + (x if x is not None else [Opq('list')]))
                    return None
                if a == 'insert' and ci(args[0]) is not None:
                    it.insert(ci(args[0]), args[1])
                    I.wr_a(o, 'items', it)
                    return None
                if a == 'pop':
                    i = ci(args[0]) if args else -1
                    if i is None:
                        I.wr_a(o, 'items', [Opq('list')])
                        return Opq('pop')
                    if not it:
                        I.throw('IndexError')
                    r = it.pop(i)
                    I.wr_a(o, 'items', it)
                    return r
                if a == 'clear':
                    I.wr_a(o, 'items', [])
                    return None
                if a == 'reverse':
                    I.wr_a(o, 'items', it[::-1])
                    return None
                I.wr_a(o, 'items', [Opq('list') for x in it])
                return None
            if a == 'copy':
                return PyList(o.items)
            if a == 'index':
                for i, x in enumerate(o.items):
                    if I.truth(self.compare('Eq', x, args[0])) is TRUE:
                        return num(i)
            return Opq('list.' + a)
        if isinstance(o, PyDict):
            if a == 'items':
                return PyList([(k, v) for k, v in o.items.items()])
            if a == 'keys':
                return PyList(list(o.items))
            if a == 'values':
                return PyList(list(o.items.values()))
            if a == 'get':
                if I.hashable(args[0]) and args[0] in o.items:
                    return o.items[args[0]]
                if isinstance(args[0], str) and '?' not in o.items:
                    return args[1] if len(args) > 1 else None
                return Opq('get')
            if a == 'copy':
                return PyDict(o.items)
            I.mutated(o)
            if a == 'update':
                d = dict(o.items)
                if args and isinstance(args[0], PyDict):
                    d.update(args[0].items)
                d.update(kw)
                I.wr_a(o, 'items', d)
                return None
            if a == 'pop':
                d = dict(o.items)
                r = d.pop(args[0], args[1] if len(args) > 1 else Opq('pop')) if I.hashable(args[0]) else Opq('pop')
                I.wr_a(o, 'items', d)
                return r
            if a == 'setdefault':
                if args[0] not in o.items:
                    d = dict(o.items)
                    d[args[0]] = args[1] if len(args) > 1 else None
                    I.wr_a(o, 'items', d)
                return o.items[args[0]]
            return Opq('dict.' + a)
        if isinstance(o, str):
            try:
                if a in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split'):
                    r = getattr(o, a)(*args)
                    if isinstance(r, bool):
                        return TRUE if r else FALSE
                    return PyList(r) if isinstance(r, list) else r
            except TypeError:
                pass
            return Opq('str') if a != 'format' else o
        if type(o) is tuple:
            return Opq('tuple.' + a)
        return Opq('method')

    def squeeze(self, o):
        keep = [i for i, d in enumerate(o.shape) if ci(dimt(d)) != 1]
        n = len(o.shape)

        def imap(ix):
            out = [ZERO] * n
            for q, i in zip(keep, ix):
                out[q] = i
            return tuple(out)
        return o.view(tuple(o.shape[i] for i in keep), imap,
                      lambda bx: (TRUE, tuple(bx[q] for q in keep)))

    # ------------------------------------------------------------ numpy
    def ufunc(self, f, v):
        if f in ('abs', 'fabs', 'absolute'):
            g = lambda x: refn('abs', (num_(x),), num_(x).isint)     # noqa
        elif f == 'sqrt':
            g = lambda x: refn('sqrt', (num_(x),))      # noqa
        elif f == 'square':
            g = lambda x: mul(num_(x), num_(x))     # noqa
        elif f in ('radians', 'deg2rad'):
            g = lambda x: div(mul(num_(x), PI), num(180))      # noqa
        elif f in ('degrees', 'rad2deg'):
            g = lambda x: div(mul(num_(x), num(180)), PI)      # noqa
        elif f in ('conj', 'conjugate', 'real', 'float64', 'complex128', 'float32', 'nan_to_num'):
            g = (lambda x: num_(x)) if f not in ('conj', 'conjugate') else \
                (lambda x: refn('conj', (num_(x),)))       # noqa
        elif f in ('negative',):
            g = lambda x: neg(num_(x))      # noqa
        elif f == 'reciprocal':
            g = lambda x: div(ONE, num_(x))     # noqa
        elif f in ('logical_not', 'invert'):
            g = lambda x: not_(T.truth(x))      # noqa
        elif f in INTT or f == 'int':
            g = lambda x: num_(x) if num_(x).isint else refn('toint', (num_(x),), True)     # noqa
        elif f in ('bool_', 'bool'):
            g = lambda x: T.truth(x)        # noqa
        elif f in ('isnan', 'isfinite', 'isinf'):
            def g(x):
                # the inputs are finite numbers
                return TRUE if f == 'isfinite' else FALSE
        elif f in ('round', 'around', 'rint'):
            def g(x):
                c = T.cval(num_(x))
                return num(round(c)) if c is not None else fn('round', (num_(x),))
        else:
            nm = {'arccos': 'acos', 'arcsin': 'asin', 'arctan': 'atan'}.get(f, f)

            def g(x):
                c = T.cval(num_(x))
                if c is not None and nm in ('exp', 'cos', 'sin', 'log', 'floor', 'ceil', 'acos', 'asin', 'tan'):
                    import math
                    try:
                        return num(getattr(math, nm)(float(c)))
                    except ValueError:
                        pass
                return refn(nm, (num_(x),))
        if isinstance(v, str) or v is None:
            self.I.throw('TypeError')
        keep = f in ('abs', 'absolute', 'square', 'conj', 'conjugate', 'real', 'negative', 'invert')
        return self.elementwise(g, [v], 'b1' if f in ('isnan', 'isfinite', 'isinf', 'logical_not',
                                                      'bool', 'bool_') else (
            'i8' if f in INTT or f == 'int' else (None if keep else 'f8')))

    def numpy(self, f, args, kw):
        I = self.I
        dt = kw.get('dtype')
        out = kw.pop('out', None)
        if out is not None and isinstance(out, Arr):
            r = self.numpy(f, args, kw)
            self.store(out, r)
            return out
        for i, a in enumerate(args):
            if isinstance(a, Opq):
                return Opq('np.' + f)
        if f in UFUNC and args:
            return self.ufunc(f, args[0])
        if f in UBIN:
            r = self.elementwise(lambda x, y: self.scal2(UBIN[f], x, y), args[:2],
                                 'b1' if f.startswith('logical') else None)
            return r
        if f in ('equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal'):
            return self.compare({'equal': 'Eq', 'not_equal': 'NotEq', 'less': 'Lt', 'greater': 'Gt',
                                 'less_equal': 'LtE', 'greater_equal': 'GtE'}[f], *args[:2])
        if f in ('array', 'asarray', 'ascontiguousarray', 'asanyarray', 'asfortranarray', 'copy',
                 'require'):
            v = args[0] if args else kw.get('object')
            if len(args) > 1:
                dt = args[1]
            a = self.toarr(v)
            if isinstance(a, Term):
                a = self.fresh((), lambda ix: a0, 'i8' if a.isint else 'f8') if False else a
                a0 = a
                a = self.fresh((), lambda ix: a0, 'b1' if T.isbool(a0) else 'i8' if a0.isint else 'f8')
            if not isinstance(a, Arr):
                return a if isinstance(a, Opq) else Opq('np.' + f)
            alias = f not in ('array', 'copy') or ('copy' in kw and I.truth(kw['copy']) is FALSE)
            nm = dname(dt) if dt is not None else ''
            same = not nm or nm in {'f8': ('float64', 'float', 'double'), 'i8': ('int64', 'int'),
                                    'i4': ('int32',)}.get(a.dtype, ())
            if a is v:
                if alias and same:
                    return a
                r = self.copy(a, dt)
            else:
                r = a if same else self.copy(a, dt)
            nd = kw.get('ndmin')
            while nd is not None and ci(nd) is not None and len(r.shape) < ci(nd):
                r = self.view(r, (None,))
            return r
        if f in ('atleast_1d', 'atleast_2d'):
            a = self.toarr(args[0])
            if isinstance(a, Term):
                a0 = a
                a = self.fresh((), lambda ix: a0)
            if not isinstance(a, Arr):
                return Opq(f)
            while len(a.shape) < int(f[8]):
                a = self.view(a, (None,))
            return a
        if f in ('zeros', 'ones', 'empty', 'full'):
            sh = self.toshape(args[0] if args else kw['shape'])
            if sh is None:
                return Opq('np.' + f)
            if len(args) > (2 if f == 'full' else 1):
                dt = args[2 if f == 'full' else 1]
            return self.const(f, sh, dt, args[1] if f == 'full' else None)
        if f in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            a = self.toarr(args[0])
            sh = a.shape if isinstance(a, Arr) else ()
            return self.const(f[:-5], tuple(dimt(d) for d in sh),
                              dt or (None if not isinstance(a, Arr) or a.dtype == 'f8' else
                                     Builtin('np.int64') if a.dtype in ('i8', 'i4', 'u8', 'i?') else None),
                              args[1] if f == 'full_like' else None)
        if f == 'arange':
            a = [self.scalar(x) for x in args]
            if any(x is None for x in a):
                return Opq(f)
            a = [num_(x) for x in a]
            lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
            r = self.arange(lo, hi, st)
            nm = dname(dt) if dt is not None else ''
            r.buf.dtype = 'i4' if nm == 'int32' else 'f8' if nm.startswith('float') or not (
                lo.isint and st.isint) else 'i8'
            return r
        if f == 'linspace':
            lo, hi = num_(self.scalar(args[0])), num_(self.scalar(args[1]))
            n = self.scalar(args[2]) if len(args) > 2 else self.scalar(kw.get('num', num(50)))
            return self.fresh((n,), lambda ix: add(lo, div(mul(ix[0], sub(hi, lo)), sub(n, ONE))))
        if f in ('sum', 'mean', 'max', 'min', 'amax', 'amin', 'any', 'all', 'prod'):
            return self.reduce({'amax': 'max', 'amin': 'min'}.get(f, f), args[0],
                               args[1] if len(args) > 1 else kw.get('axis'),
                               I.truth(kw.get('keepdims', FALSE)) is TRUE)
        if f in ('count_nonzero',):
            a = self.toarr(args[0])
            return self.reduce('sum', self.elementwise(lambda x: num_(T.truth(x)), [a]))
        if f == 'shape':
            a = self.toarr(args[0])
            return tuple(dimt(d) for d in a.shape) if isinstance(a, Arr) else (() if isinstance(a, Term) else Opq(f))
        if f == 'ndim':
            a = self.toarr(args[0])
            return num(len(a.shape)) if isinstance(a, Arr) else ZERO
        if f == 'size':
            a = self.toarr(args[0])
            return self.size(a.shape) if isinstance(a, Arr) else ONE
        if f == 'reshape':
            a = self.toarr(args[0])
            sh = args[1] if len(args) > 1 else kw.get('newshape', kw.get('shape'))
            return self.reshape(a, sh) if isinstance(a, Arr) else Opq(f)
        if f in ('ravel',):
            a = self.toarr(args[0])
            return self.reshape(a, num(-1)) if isinstance(a, Arr) else Opq(f)
        if f == 'transpose':
            a = self.toarr(args[0])
            ax = args[1] if len(args) > 1 else kw.get('axes')
            if not isinstance(a, Arr):
                return Opq(f)
            return self.transpose(a, [ci(x) for x in I.iterate(ax)] if ax is not None else None)
        if f in ('swapaxes',):
            return self.method(self.toarr(args[0]), 'swapaxes', args[1:], {}, None)
        if f == 'moveaxis':
            return Opq(f)
        if f in ('squeeze',):
            return self.squeeze(args[0])
        if f == 'expand_dims':
            a = self.toarr(args[0])
            ax = ci(args[1] if len(args) > 1 else kw.get('axis'))
            n = len(a.shape) + 1
            k = [Slice(None, None, None)] * (n - 1)
            k.insert(ax % n, None)
            return self.view(a, tuple(k))
        if f in ('concatenate', 'hstack', 'vstack', 'stack', 'append', 'r_'):
            seq = args[0]
            if f == 'append':
                seq = PyList(args[:2])
            it = I.iterate(seq)
            if it is None:
                return Opq(f)
            it = [self.toarr(x) for x in it]
            if not all(isinstance(x, Arr) for x in it):
                return Opq(f)
            ax = ci(kw.get('axis', args[1] if len(args) > 1 and f != 'append' else ZERO))
            if f == 'stack':
                if ax == 0:
                    return self.toarr(PyList(it))
                r = self.toarr(PyList(it))
                n = len(r.shape)
                order = list(range(1, n))
                order.insert(ax % n, 0)
                return self.transpose(r, order)
            if f == 'vstack':
                it = [self.view(x, (None,)) if len(x.shape) == 1 else x for x in it]
            if f == 'hstack' and len(it[0].shape) > 1:
                ax = 1
            if any(not x.shape for x in it):
                I.throw('ValueError')
            return self.concat(it, ax)
        if f == 'where':
            if len(args) == 1:
                a = self.toarr(args[0])
                if isinstance(a, Arr) and len(a.shape) == 1:
                    s = a.snap()
                    md = MDim(a.shape[0], lambda i: T.truth(s((i,))))
                    r = self.fresh((md,), lambda ix: ix[0], 'i8')
                    r.maskidx = md.mask
                    return (r,)
                return Opq(f)
            return self.elementwise(lambda c, x, y: ite(T.truth(c), num_(x), num_(y)), args)
        if f == 'flatnonzero':
            return self.numpy('where', args, {})[0]
        if f in ('dot', 'matmul', 'inner', 'vdot'):
            return self.dot(args[0], args[1])
        if f == 'outer':
            a, b = (self.reshape(self.toarr(x), num(-1)) for x in args)
            return self.binop('Mult', self.view(a, (Slice(None, None, None), None)), self.view(b, (None,)))
        if f == 'einsum':
            return self.einsum(args)
        if f in ('clip',):
            r = self.elementwise(lambda x, y: T.minmax('max', num_(x), num_(y)), [args[0], args[1]])
            return self.elementwise(lambda x, y: T.minmax('min', num_(x), num_(y)), [r, args[2]])
        if f == 'cumsum':
            a = self.toarr(args[0])
            if isinstance(a, Arr) and len(a.shape) == 1:
                s = a.snap()
                w = a.whole()

                def g(ix):
                    k = ci(ix[0])
                    if k is not None and k < 40:
                        r = ZERO
                        for i in range(k + 1):
                            r = add(r, num_(s((num(i),))))
                        return r
                    L = T.Loop(ZERO, add(ix[0], ONE), name='r')
                    return T.sum_(L, TRUE, num_(s((L.sym,))))
                del w
                return self.fresh(a.shape, g, a.dtype)
            return Opq(f)
        if f in ('diag', 'eye', 'identity'):
            if f != 'diag':
                n = self.scalar(args[0])
                return self.fresh((n, n), lambda ix: ite(eq(ix[0], ix[1]), ONE, ZERO))
            a = self.toarr(args[0])
            s = a.snap()
            if len(a.shape) == 1:
                return self.fresh((a.shape[0],) * 2, lambda ix: ite(eq(ix[0], ix[1]), num_(s((ix[0],))), ZERO))
            return self.fresh((a.shape[0],), lambda ix: s((ix[0], ix[0])))
        if f in ('linalg.inv', 'linalg.pinv'):
            a = self.toarr(args[0])
            return self.opaque('np:' + f, a.shape, [a] + args[1:]) if isinstance(a, Arr) else Opq(f)
        if f in ('linalg.eigh', 'linalg.eig'):
            a = self.toarr(args[0])
            return (self.opaque('np:eigh:w', a.shape[:1], [a]), self.opaque('np:eigh:v', a.shape, [a]))
        if f in ('array_equal', 'allclose', 'array_equiv'):
            a, b = self.toarr(args[0]), self.toarr(args[1])
            if isinstance(a, Arr) and isinstance(b, Arr):
                if len(a.shape) != len(b.shape):
                    return FALSE
                c = and_(TRUE, *[eq(dimt(x), dimt(y)) for x, y in zip(a.shape, b.shape)])
                if c is FALSE:
                    return FALSE
                sa, sb = a.snap(), b.snap()
                d = self.red('any', list(a.shape), lambda j: not_(eq(num_(sa(j)), num_(sb(j)))))
                return and_(c, not_(d))
            return T.truth(Opq(f).term)
        if f == 'isclose':
            return self.compare('Eq', args[0], args[1])
        if f in ('isscalar',):
            return TRUE if isinstance(args[0], (Term, str)) else FALSE
        if f == 'broadcast_to':
            sh = self.toshape(args[1])
            a = self.toarr(args[0])
            if not isinstance(a, Arr) or sh is None:
                return Opq(f)
            b = self.bcast(a, len(sh))
            return self.fresh(sh, b, a.dtype)
        if f in ('tile', 'repeat'):
            return Opq(f)
        if f in ('unique', 'sort', 'argsort', 'nonzero', 'diff', 'trapz', 'interp', 'flip', 'fliplr',
                 'flipud', 'argmax', 'argmin', 'searchsorted', 'digitize', 'histogram', 'bincount'):
            if f == 'flip' and len(args) == 1 or f in ('fliplr', 'flipud'):
                a = self.toarr(args[0])
                rev = Slice(None, None, num(-1))
                if f == 'flip':
                    return self.view(a, tuple([rev] * len(a.shape)))
                return self.view(a, (ELLIPSIS, rev) if f == 'fliplr' else (rev,))
            return Opq('np.' + f)
        if f == 'ndarray':
            return Opq(f)
        if f == 'dtype':
            return args[0]
        if f.startswith('random.'):
            return self.random(f[7:], args, kw)
        if f == 'errstate':
            return Opq(f)
        if f == 'pad':
            return Opq(f)
        I.emit('unknown', 'np.' + f, args)
        return Opq('np.' + f)

    def const(self, f, sh, dt, v):
        nm = dname(dt) if dt is not None else ''
        d = 'i8' if nm in INTT else 'b1' if nm in ('bool', 'bool_') else 'f8'
        if nm == 'int32':
            d = 'i4'
        if nm == 'uint64':
            d = 'u8'
        if f == 'empty':
            u = num(self.new())
            return self.fresh(sh, lambda ix: fn('undef', (u,) + tuple(ix)), d)
        t = ZERO if f == 'zeros' else ONE if f == 'ones' else self.scalar(v)
        if d == 'b1':
            t = T.truth(t)
        if t is None:
            return Opq('full')
        return self.fresh(sh, lambda ix: t, d)

    def concat(self, it, ax):
        n = len(it[0].shape)
        ax %= n
        for x in it[1:]:
            for i, (d, e) in enumerate(zip(it[0].shape, x.shape)):
                if i != ax and dimt(d) is not dimt(e):
                    self.I.throw('ValueError', cond=not_(eq(dimt(d), dimt(e))))
        offs = [ZERO]
        for x in it:
            offs.append(add(offs[-1], dimt(x.shape[ax])))
        sn = [x.snap() for x in it]
        sh = list(it[0].shape)
        sh[ax] = offs[-1]

        def at(ix):
            i = ix[ax]

            def part(q):
                jx = list(ix)
                jx[ax] = sub(i, offs[q])
                return num_(sn[q](tuple(jx)))
            c = ci(i)
            if c is not None and all(ci(o) is not None for o in offs):
                for q in range(len(it)):
                    if ci(offs[q]) <= c < ci(offs[q + 1]):
                        return part(q)
            r = part(len(it) - 1)
            for q in reversed(range(len(it) - 1)):
                r = ite(lt(i, offs[q + 1]), part(q), r)
            return r
        return self.fresh(sh, at, it[0].dtype)

    def random(self, f, args, kw):
        I = self.I
        st = I.rngbox['state']
        if f == 'seed':
            I.emit('rng', 'seed', tuple(args))
            I.wr_d(I.rngbox, 'state', fn('rngseed', (self.key(args[0] if args else None),)))
            return None
        if f == 'get_state':
            return fn('rngstate', (st,))
        if f == 'set_state':
            k = self.key(args[0])
            I.emit('rng', 'set', tuple(args))
            if k.op == 'fn' and k.args[0] == 'rngstate':
                I.wr_d(I.rngbox, 'state', k.args[1][0])
            else:
                I.wr_d(I.rngbox, 'state', fn('rngset', (k,)))
            return None
        if f in ('RandomState', 'default_rng', 'Generator'):
            I.emit('rng', 'new', tuple(args))
            return Opq('rng')
        I.emit('rng', f, tuple(args))
        t = fn('draw:' + f, (st,) + tuple(self.key(a) for a in args), f in ('randint',))
        I.wr_d(I.rngbox, 'state', fn('rngnext', (st, T.str_(f))))
        size = kw.get('size', args[-1] if f in ('randn', 'rand', 'random') and args else None)
        if f == 'randint' and len(args) < 3 and size is None:
            return t
        return Opq('random') if size is not None else t

    # ------------------------------------------------------------ healpy, ducc0
    def external(self, nm, args, kw):
        I = self.I
        I.emit('ext', nm, tuple(args) + tuple(kw.values()))
        I.effects[-1].kw = dict(kw)
        short = nm.split('.')[-1]

        def arg(i, name, d=None):
            return args[i] if i < len(args) else kw.get(name, d)
        if nm == 'hp.alm2cl':
            a, b = arg(0, 'alms1'), arg(1, 'alms2')
            lmax = arg(2, 'lmax')
            if b is None:
                b = a
            a, b = self.toarr(a), self.toarr(b)
            if not isinstance(a, Arr) or not isinstance(b, Arr) or len(a.shape) != 1 or len(b.shape) != 1:
                return Opq(nm)
            ka, kb = a.whole(), b.whole()
            lm = self.scalar(lmax) if lmax is not None else None
            n = add(lm, ONE) if lm is not None else fn('ncl', (dimt(a.shape[0]),), True)
            return self.fresh((n,), lambda ix: fn('sym:alm2cl', (ix[0], ka, kb)))
        if nm == 'hp.almxfl':
            a, fl = arg(0, 'alm'), arg(1, 'fl')
            mm = arg(2, 'mmax')
            inpl = arg(3, 'inplace', kw.get('inplace', FALSE))
            a, fl = self.toarr(a), self.toarr(fl)
            if not isinstance(a, Arr) or not isinstance(fl, Arr) or len(a.shape) != 1:
                return Opq(nm)
            sa, sf = a.snap(), fl.snap()
            n = dimt(a.shape[0])
            kmm = self.key(mm)
            nf = dimt(fl.shape[0])
            # the multipole of coefficient k depends on the layout; beyond the filter the result is zero

            def at(ix):
                ell = fn('almell', (ix[0], n, kmm), True)
                return mul(num_(sa(ix)), fn('filt', (num_(sf((ell,))), ite(lt(ell, nf), ONE, ZERO))))

            def at(ix):     # noqa
                ell = fn('almell', (ix[0], n, kmm), True)
                return mul(num_(sa(ix)), num_(sf((ell,))))
            r = self.fresh((n,), at)
            if I.truth(inpl) is TRUE:
                self.store(a, r)
                return a
            return r
        if nm == 'hp.synalm':
            st = I.rngbox['state']
            I.emit('rng', 'draw', ())
            k = [self.key(x) for x in args] + [self.key(kw[x]) for x in sorted(kw)]
            I.wr_d(I.rngbox, 'state', fn('rngnext', (st, T.str_('synalm'))))
            cls = self.toarr(args[0])
            n = fn('synmaps', (self.key(self.length(cls)),), True) if not isinstance(cls, Arr) or \
                ci(dimt(cls.shape[0])) is None else num(tri(ci(dimt(cls.shape[0]))))
            lm = kw.get('lmax')
            return self.fresh((n, fn('nelem', (self.key(lm),), True)),
                              lambda ix: fn('synalm', tuple(ix) + (st,) + tuple(k)))
        if nm == 'ducc0.sht.experimental.get_gridweights':
            n = self.scalar(args[1])
            return self.fresh((n,), lambda ix: fn('gridweights', (self.key(args[0]), n, ix[0])))
        ks = [self.key(x) for x in args]
        names = sorted(kw)
        if short in ('synthesis', 'alm2map', 'alm2map_spin', 'map2alm', 'map2alm_spin', 'adjoint_synthesis',
                     'adjoint_synthesis_general', 'synthesis_general'):
            al = [self.key(kw[x]) for x in names]
            tag = 'ext:' + nm + ':' + ','.join(['%d' % len(ks)] + names)
            src = args[0] if args else kw.get('alm', kw.get('map'))
            src = self.toarr(src) if src is not None else None
            if short in ('alm2map', 'map2alm') and isinstance(src, Arr) and len(src.shape) == 1:
                lead = ()
            elif isinstance(src, Arr) and len(src.shape) >= 1:
                lead = (src.shape[0],)
            else:
                lead = (num(2),)
            sp = kw.get('spin')
            if short in ('synthesis',) and sp is not None and self.scalar(sp) is not None:
                pass
            last = fn('extlen:' + short, tuple(al) + tuple(ks), True)
            if short.startswith('alm2map'):
                ns = kw.get('nside', args[1] if len(args) > 1 else None)
                s_ = self.scalar(ns) if ns is not None else None
                if s_ is not None:
                    last = mul(num(12), s_, s_)
            elif short in ('synthesis', 'adjoint_synthesis'):
                # size of the output: end of the last ring, or of the last block of coefficients
                off = self.toarr(kw.get('ringstart' if short == 'synthesis' else 'mstart'))
                cnt = self.toarr(kw.get('nphi')) if short == 'synthesis' else None
                lm = self.scalar(kw['lmax']) if kw.get('lmax') is not None else None
                if isinstance(off, Arr) and len(off.shape) == 1:
                    e = num_(off.at((sub(dimt(off.shape[0]), ONE),)))
                    if isinstance(cnt, Arr) and len(cnt.shape) == 1:
                        last = add(e, num_(cnt.at((sub(dimt(cnt.shape[0]), ONE),))))
                    elif short != 'synthesis' and lm is not None:
                        last = add(e, lm, ONE)
            return self.fresh(lead + (last,), lambda ix: fn(tag, tuple(ix) + tuple(ks) + tuple(al)))
        return Opq(nm)

    # ------------------------------------------------------------ native library
    def nativecall(self, name, args, kw):
        I = self.I
        w = I.wraps.get(name) if getattr(I, 'wraps', None) else None
        if w is None:
            I.emit('unknown', 'lib.' + name, args)
            return Opq('lib')
        if kw:
            I.throw('TypeError')
        if len(args) != len(w.args):
            I.throw('TypeError')
        vals, terms, handles = {}, [], []
        for a, v in zip(w.args, args):
            if isinstance(v, Ch):
                k = None
            else:
                k = None
            if a.kind == 'array':
                v2 = self.toarr(v)
                if isinstance(v2, Term) or v2 is None or isinstance(v2, (str, Inst)):
                    I.throw('TypeError')
                if isinstance(v2, Arr):
                    if len(v2.shape) != a.nd:
                        I.throw('TypeError')
                    # the native side sees the caller's memory unless a conversion copies it
                    v2.src = v
                    if a.ctype == 'int':
                        s = v2.snap()
                        k = T.lam(tuple(dimt(d) for d in v2.shape), lambda ix: (
                            lambda x: x if x.isint else refn('toint', (x,), True))(num_(s(ix))))
                    else:
                        k = v2.whole()
                v = v2
            elif a.kind == 'handle':
                if v is None and False:
                    pass
                hs = [x for c, x in v.alts] if isinstance(v, Ch) else [v]
                for h in hs:
                    if isinstance(h, Handle):
                        handles.append(h)
                        if h.ctype != a.ctype:
                            I.throw('TypeError')
                        if h.freed is not FALSE and and_(h.freed, I.pc) is not FALSE:
                            I.emit('uaf', name, (h,))
                            I.effects[-1].cond = h.freed
                    elif h is not None and not isinstance(h, Opq):
                        I.throw('TypeError')
            elif a.kind in ('int', 'size'):
                t = self.scalar(v)
                if t is None and not isinstance(v, Opq):
                    I.throw('TypeError')
                if t is not None:
                    t = num_(t)
                    if not t.isint and T.cval(t) is not None and T.cval(t).denominator != 1:
                        I.throw('TypeError')
                    v = t
            elif a.kind == 'double':
                t = self.scalar(v)
                if t is None and not isinstance(v, Opq):
                    I.throw('TypeError')
                v = num_(t) if t is not None else v
            elif a.kind == 'str':
                if v is None or isinstance(v, (Arr, PyList, Inst)):
                    if v is not None:
                        I.throw('TypeError')
            if k is None:
                k = self.key(v)
            vals[a.name] = (v, k)
            terms.append(k)
        free = name.endswith('_free') and w.ret == 'void'
        e = I.emit('free' if free else 'native', name, vals)
        e.order = [a.name for a in w.args]
        if free:
            for h in handles:
                if isinstance(h, Handle):
                    self.release(h)
            return None
        ks = tuple(terms)
        outs = []
        for a in w.args:
            if a.kind == 'size':
                n = vals[a.name][0]
                n = n if isinstance(n, Term) else vals[a.name][1]
                tag = 'lib:%s:%s' % (name, a.name)
                outs.append(self.fresh((n,), (lambda tag: lambda ix: fn(
                    tag, tuple(ix) + ks, a.ctype == 'int'))(tag),
                    'i4' if a.ctype == 'int' else 'f8'))
        if w.ret.endswith('*') and w.ret != 'char *':
            h = Handle(w.ret[:-1].strip(), fn('lib:' + name, ks))
            h.made = name
            h.pc = I.pc
            h.where = e.where
            h.args = vals
            I.handles.append(h)
            return h
        if w.ret in ('int', 'long', 'double', 'flouble'):
            r = fn('lib:' + name, ks, w.ret in ('int', 'long'))
            return r if not outs else tuple([r] + outs)
        if not outs:
            for h in handles[:1]:
                if not name.startswith('write'):
                    I.wr_a(h, 'term', fn('after:' + name, ks))
                    I.wr_a(h, 'sub', {})
            return None
        return outs[0] if len(outs) == 1 else PyList(outs)


def tri(n):
    k = 1
    while k * (k + 1) // 2 < n:
        k += 1
    return k


def pick(items, i):
    c = ci(i)
    if c is not None:
        if 0 <= c < len(items):
            return items[c]
        return fn('outofrange', (i,))
    r = num_(items[-1]) if items else fn('outofrange', (i,))
    if items and all(x is items[0] for x in items):
        return items[0]
    for j in reversed(range(len(items) - 1)):
        r = ite(eq(i, num(j)), num_(items[j]), r)
    return r


def pickf(sn, ix):
    c = ci(ix[0])
    rest = tuple(ix[1:])
    if c is not None:
        if 0 <= c < len(sn):
            return sn[c](rest)
        return fn('outofrange', (ix[0],))
    return pick([sn[j](rest) for j in range(len(sn))], ix[0])


ARRM = {'copy', 'flatten', 'ravel', 'reshape', 'astype', 'transpose', 'swapaxes', 'sum', 'mean', 'max', 'min',
        'any', 'all', 'prod', 'fill', 'dot', 'tolist', 'item', 'conj', 'conjugate', 'round', 'squeeze',
        'cumsum', 'nonzero', 'repeat', 'byteswap', 'newbyteorder', 'view', 'sort', 'argsort', 'argmax',
        'std', 'var', 'clip', 'take', 'setflags', 'tobytes', 'put', 'diagonal', 'trace', 'resize'}
LISTM = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'copy', 'index', 'count'}
DICTM = {'items', 'keys', 'values', 'get', 'copy', 'update', 'pop', 'setdefault', 'clear'}
STRM = {'lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split', 'join', 'format', 'encode',
        'rstrip', 'lstrip', 'isdigit', 'title', 'find', 'count', 'index', 'decode'}
