"""Abstract interpretation of the Python sources (pymaster) over value-flow terms.

Scalars are terms (terms.py).  An array is a buffer (with an origin: caller, fresh, native) seen
through a view; its sizes are terms and its content is a map from index terms to element terms, so
shapes and data stay symbolic, and aliasing is exact.  Branches on undecided conditions are joined
(no path enumeration); raising narrows the path condition.  Calls into the native library, healpy,
ducc0 and the numpy random generator are uninterpreted and logged as effects.  What cannot be
resolved becomes an opaque value ('?...') and makes the obligations that use it undecided."""
import ast
import os
from fractions import Fraction
from . import cfront
from . import terms as T
from .terms import (num, sym, fn, refn, add, sub, mul, div, neg, eq, lt, le, and_, or_, not_, ite,
                    TRUE, FALSE, ZERO, ONE, Term)

UNSET = type('Unset', (), {'__repr__': lambda s: 'UNSET'})()


class Dead(Exception):
    """The current path ended (exception raised while evaluating an expression)."""


class Broken(Exception):
    pass


class Opq(object):
    n = [0]

    def __init__(self, tag):
        Opq.n[0] += 1
        self.tag = '%s' % tag
        self.term = fn('?' + self.tag, (num(Opq.n[0]),))

    def __repr__(self):
        return '?' + self.tag


class Ch(object):
    """One of several values, each under a condition."""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ch(%s)' % (self.alts,)


class Buf(object):
    n = [0]

    def __init__(self, shape, f, kind='fresh', name='', dtype='f8'):
        Buf.n[0] += 1
        self.id = Buf.n[0]
        self.shape = tuple(shape)
        self.fn = f
        self.kind, self.name, self.dtype = kind, name, dtype
        self.owner = None


class MDim(object):
    """Length of an axis selected by a boolean array; indices are those of the full axis."""

    def __init__(self, full, mask):
        self.full = full
        self.mask = mask             # index term -> condition
        self.term = fn('count', (T.lam((dimt(full),), lambda ix: num_(mask(ix[0]))),), True)


def dimt(d):
    return d.term if isinstance(d, MDim) else d


def dimfull(d):
    return dimfull(d.full) if isinstance(d, MDim) else d


class Arr(object):
    def __init__(self, buf, shape=None, imap=None, inv=None):
        self.buf = buf
        self.shape = tuple(buf.shape if shape is None else shape)
        self.imap, self.inv = imap, inv

    @property
    def dtype(self):
        return self.buf.dtype

    def snap(self):
        """current content: index tuple -> term"""
        f, m = self.buf.fn, self.imap
        if m is None:
            return f
        return lambda ix: f(m(ix))

    def at(self, ix):
        return self.snap()(tuple(ix))

    def view(self, shape, imap, inv):
        """imap: view index -> own index; inv: own index -> (condition, view index) or None"""
        m0, i0 = self.imap, self.inv
        if m0 is None:
            m = imap
        else:
            def m(ix):
                return m0(imap(ix))
        if inv is None or (m0 is not None and i0 is None):
            iv = False
        elif m0 is None:
            iv = inv
        else:
            def iv(bx):
                c, ix = i0(bx)
                c2, ix2 = inv(ix)
                return and_(c, c2), ix2
        a = Arr(self.buf, shape, m, iv or None)
        a.lost = iv is False
        return a

    lost = False

    def __repr__(self):
        return 'Arr(%s %s %s)' % (self.buf.kind, self.buf.name or self.buf.id, [
            str(dimt(d)) for d in self.shape])

    def whole(self):
        return T.lam(tuple(dimt(d) for d in self.shape), self.snap())


class PyList(object):
    def __init__(self, items, kind='fresh', name=''):
        self.items = list(items)
        self.kind, self.name = kind, name
        self.more = None             # Arr describing a list of symbolic length


class PyDict(object):
    def __init__(self, items=None):
        self.items = dict(items or {})
        self.kind = 'fresh'


class Func(object):
    def __init__(self, node, env, mod, name, cls=None):
        self.node, self.env, self.mod, self.name, self.cls = node, env, mod, name, cls
        self.defaults = []
        self.kwdefaults = []


class Class(object):
    def __init__(self, name, bases, mod):
        self.name, self.bases, self.mod = name, bases, mod
        self.attrs = {}

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n], self
        for b in self.bases:
            if isinstance(b, Class):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def isa(self, other):
        return self is other or any(isinstance(b, Class) and b.isa(other) for b in self.bases)

    def __repr__(self):
        return 'class ' + self.name


class Inst(object):
    n = [0]

    def __init__(self, cls):
        Inst.n[0] += 1
        self.cls = cls
        self.attrs = {}
        self.id = Inst.n[0]
        self.kind = 'fresh'

    def __repr__(self):
        return '<%s %d>' % (self.cls.name, self.id)


class Handle(object):
    """An object of the native library."""

    def __init__(self, ctype, term, owner=None):
        self.ctype, self.term, self.owner = ctype, term, owner
        self.sub = {}
        self.freed = FALSE

    def __repr__(self):
        return 'Handle(%s %s)' % (self.ctype, self.term)


class Bound(object):
    def __init__(self, obj, f):
        self.obj, self.f = obj, f


class Module(object):
    def __init__(self, name):
        self.name = name
        self.vars = {}
        self.path = None

    def __repr__(self):
        return 'module ' + self.name


class Builtin(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'builtin ' + self.name


class Exc(object):
    def __init__(self, name, cls=None):
        self.name, self.cls = name, cls

    def __repr__(self):
        return self.name


class Slice(object):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


ELLIPSIS = object()


class Effect(object):
    def __init__(self, kind, name, args, pc, where, result=None):
        self.kind, self.name, self.args, self.pc, self.where, self.result = \
            kind, name, args, pc, where, result

    def __repr__(self):
        return '%s:%s @%s [%s]' % (self.kind, self.name, self.where, self.pc)


def num_(t):
    """a term usable in arithmetic"""
    if isinstance(t, Term) and T.isbool(t):
        return ite(t, ONE, ZERO)
    return t


def ci(t):
    """concrete integer of a value, or None"""
    if isinstance(t, Term):
        if t is TRUE:
            return 1
        if t is FALSE:
            return 0
        c = T.cval(t)
        if c is not None and c.denominator == 1:
            return int(c)
    return None


PYEXC = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError',
         'RuntimeError', 'NotImplementedError', 'SyntaxError', 'ModuleNotFoundError', 'ImportError',
         'OSError', 'IOError', 'AssertionError', 'NameError', 'StopIteration', 'ArithmeticError',
         'ZeroDivisionError', 'LookupError', 'BaseException', 'FileNotFoundError', 'Warning',
         'DeprecationWarning', 'UserWarning', 'RuntimeWarning', 'MemoryError', 'OverflowError',
         'FutureWarning'}


def excisa(a, b):
    import builtins
    x, y = getattr(builtins, a, None), getattr(builtins, b, None)
    if isinstance(x, type) and isinstance(y, type):
        return issubclass(x, y)
    return a == b


class Env(object):
    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent
        self.globals = set()
        self.nonlocals = set()

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


class Frame(object):
    def __init__(self, func):
        self.func = func
        self.rets = []


class Interp(object):
    MAXIT = 200000

    def __init__(self, repo=None, overrides=None, prog=None, wraps=None):
        self.repo = repo or cfront.REPO
        self.modules = {}
        self.pc = TRUE
        self.live = TRUE
        self.effects = []
        self.handlers = [[]]
        self.journal = []
        self.frames = []
        self.overrides = overrides or {}
        self.files = {}
        self.visited = set()
        self.depth = 0
        self.rng = sym('rng0')
        self.rngbox = {'state': self.rng}
        self.cur = None
        self.curfile = ''
        self.writes = []
        self.steps = 0
        self.count = {}
        self.handles = []
        self.instances = []
        self.building = []
        self.prog, self.wraps = prog, wraps
        from . import pylib
        self.lib = pylib.Lib(self)

    def insts(self):
        return self.instances

    # ------------------------------------------------------------ journal
    def wr_d(self, d, k, v):
        old = d.get(k, UNSET)
        if self.live is not TRUE:
            v = self.merge(self.live, v, old)
        for j in self.journal[-1:]:
            j.setdefault(('d', id(d), k), (d, k, old))
        if v is UNSET:
            d.pop(k, None)
        else:
            d[k] = v

    def wr_a(self, o, a, v):
        old = getattr(o, a)
        if self.live is not TRUE:
            v = self.merge(self.live, v, old)
        for j in self.journal[-1:]:
            j.setdefault(('a', id(o), a), (o, a, old))
        setattr(o, a, v)

    @staticmethod
    def _cur(e, t):
        return e[0].get(e[1], UNSET) if t == 'd' else getattr(e[0], e[1])

    @staticmethod
    def _set(e, t, v):
        if t == 'd':
            if v is UNSET:
                e[0].pop(e[1], None)
            else:
                e[0][e[1]] = v
        else:
            setattr(e[0], e[1], v)

    def branch(self, g, th, el):
        """Executes th under g and el under not g, joining the state."""
        g = T.truth(g)
        if g is TRUE or T.implies(self.pc, g):
            return th()
        ng = not_(g)
        if g is FALSE or T.implies(self.pc, ng):
            return el()
        pc, live = self.pc, self.live
        res, ends, deltas, lives = [], [], [], []
        for c, f in ((g, th), (ng, el)):
            self.pc = and_(pc, c)
            self.live = live
            if self.pc is FALSE:
                res.append(UNSET)
                ends.append(FALSE)
                deltas.append(({}, {}))
                lives.append(None)
                continue
            j = {}
            self.journal.append(j)
            try:
                r = f()
            except Dead:
                r = UNSET
                self.pc = FALSE
            self.journal.pop()
            new = {k: self._cur(e, k[0]) for k, e in j.items()}
            for k, e in j.items():
                self._set(e, k[0], e[2])
            res.append(r)
            ends.append(self.pc)
            deltas.append((j, new))
            lives.append(self.live)
        ra, rb = self.raised_end
        ja, na = deltas[0]
        jb, nb = deltas[1]
        keys = dict(ja)
        keys.update(jb)
        self.live = live
        for k, e in keys.items():
            va = na.get(k, e[2])
            vb = nb.get(k, e[2])
            # a branch that ended in an exception does not contribute
            if ends[0] is FALSE and not self.returns_in(pc, g):
                v = vb
            elif ends[1] is FALSE and not self.returns_in(pc, ng):
                v = va
            else:
                v = self.merge(g, va, vb)
            if self.journal:
                self.journal[-1].setdefault(k, e)
            self._set(e, k[0], v)
        a, b = ends
        if a is FALSE and b is FALSE:
            self.pc = FALSE
            raise Dead()
        if a is FALSE:
            self.pc = b
            r = res[1]
        elif b is FALSE:
            self.pc = a
            r = res[0]
        else:
            pa, pb = and_(pc, g), and_(pc, ng)
            if a is pa and b is pb:
                self.pc = pc
            else:
                # keep the conjuncts both ends share with the entry
                self.pc = and_(pc, or_(and_(g, *[x for x in T.conj(a) if x not in T.conj(pa)]),
                                       and_(ng, *[x for x in T.conj(b) if x not in T.conj(pb)])))
            r = self.merge(g, res[0], res[1]) if res[0] is not res[1] else res[0]
        # symbolic early return: later writes happen only if it was not taken
        for c, end in ((g, a), (ng, b)):
            if end is FALSE and self.returns_in(pc, c):
                self.live = and_(live, not_(c))
        return r

    raised_end = (None, None)

    def returns_in(self, pc, g):
        f = self.frames[-1] if self.frames else None
        if f is None:
            return False
        x = and_(pc, g)
        return any(T.implies(p, g) and p is not TRUE for p, v in f.rets[-4:] if p is x or T.implies(p, x))

    def merge(self, g, a, b):
        if a is b:
            return a
        if g is TRUE:
            return a
        if g is FALSE:
            return b
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(g, a, b)
        if callable(a) and callable(b) and not isinstance(a, (Class, Func, Builtin)):
            return lambda ix: ite(g, num_(a(ix)), num_(b(ix))) if not (
                T.isbool(a(ix)) and T.isbool(b(ix))) else ite(g, a(ix), b(ix))
        if isinstance(a, list) and isinstance(b, list):      # PyList.items
            if len(a) == len(b):
                return [self.merge(g, x, y) for x, y in zip(a, b)]
            return [Opq('list')]
        if isinstance(a, dict) and isinstance(b, dict):
            return {k: self.merge(g, a.get(k, UNSET), b.get(k, UNSET)) for k in list(a) + [
                x for x in b if x not in a]}
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return tuple(self.merge(g, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and a == b:
            return a
        if isinstance(a, Builtin) and a == b:
            return a
        out = []
        for c, v in ((g, a), (not_(g), b)):
            for c2, w in (v.alts if isinstance(v, Ch) else [(TRUE, v)]):
                cc = and_(c, c2)
                if cc is FALSE:
                    continue
                for i, (c3, w3) in enumerate(out):
                    if w3 is w or (isinstance(w, str) and w3 == w):
                        out[i] = (or_(c3, cc), w)
                        break
                else:
                    out.append((cc, w))
        if len(out) == 1:
            return out[0][1]
        return Ch(out)

    def lift(self, f, *vals):
        """applies f to every alternative of its arguments"""
        for i, v in enumerate(vals):
            if isinstance(v, Ch):
                alts = [(c, w) for c, w in v.alts if not T.implies(self.pc, not_(c))]
                if len(alts) == 1:
                    return self.lift(f, *(vals[:i] + (alts[0][1],) + vals[i + 1:]))

                def go(k):
                    if k == len(alts) - 1:
                        return self.lift(f, *(vals[:i] + (alts[k][1],) + vals[i + 1:]))
                    return self.branch(alts[k][0], lambda: self.lift(
                        f, *(vals[:i] + (alts[k][1],) + vals[i + 1:])), lambda: go(k + 1))
                return go(0)
        return f(*vals)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = Module(name)
        self.modules[name] = m
        if name.startswith('spec.'):
            path = os.path.join(cfront.VERIF, 'spec', name[5:] + '.py')
        else:
            path = os.path.join(self.repo, *name.split('.'))
            path = os.path.join(path, '__init__.py') if os.path.isdir(path) else path + '.py'
        if name == 'pymaster.nmtlib' or not os.path.exists(path):
            return m
        m.path = path
        src = open(path).read()
        tree = ast.parse(src, path)
        self.files[path] = tree
        m.vars['__name__'] = name
        env = Env()
        env.vars = m.vars
        m.env = env
        old = (self.pc, self.live, self.curfile)
        self.pc, self.live = TRUE, TRUE
        self.curfile = path
        self.run_block(tree.body, env, m)
        self.pc, self.live, self.curfile = old
        return m

    def where(self, n=None):
        n = n or self.cur
        f = os.path.relpath(self.curfile, self.repo) if self.curfile else '?'
        fr = self.frames[-1].func.name if self.frames else '<module>'
        return '%s:%s (%s)' % (f, getattr(n, 'lineno', '?'), fr)

    def emit(self, kind, name, args=(), result=None):
        e = Effect(kind, name, args, self.pc, self.where(), result)
        e.infile = self.curfile
        if kind in ('raise', 'native'):
            e.building = [(o, dict(o.attrs)) for o in self.building]
            e.dangling = self.dangling()
        if kind == 'raise' and len(self.handlers) == 1:
            e.local = self.unowned()
        self.effects.append(e)
        return e

    def dangling(self):
        """attributes that hold freed objects"""
        return [(o, at, x.freed) for o in self.instances for at, x in o.attrs.items()
                if isinstance(x, Handle) and x.freed is not FALSE and
                and_(x.freed, self.pc) is not FALSE]

    def owned(self):
        out = set()
        for o in self.instances:
            for x in o.attrs.values():
                for y in ([z for c, z in x.alts] if isinstance(x, Ch) else [x]):
                    if isinstance(y, Handle):
                        out.add(id(y))
                    elif isinstance(y, (PyList, tuple)):
                        out.update(id(z) for z in (y.items if isinstance(y, PyList) else y))
                    elif isinstance(y, (PyDict, Opq)):
                        return None
        return out

    def unowned(self):
        """live objects of the native library no instance refers to"""
        own = self.owned() if self.handles else set()
        if own is None:
            return []
        return [h for h in self.handles if h.freed is FALSE and id(h) not in own and
                and_(getattr(h, 'pc', TRUE), self.pc) is not FALSE]

    # ------------------------------------------------------------ exceptions
    def throw(self, name, cls=None, cond=None):
        pc = self.pc if cond is None else and_(self.pc, cond)
        if pc is FALSE:
            return
        e = Exc(name, cls)
        self.emit('raise', name)
        self.effects[-1].pc = pc
        self.handlers[-1].append((pc, e))
        if cond is None:
            self.pc = FALSE
            raise Dead()
        self.pc = and_(self.pc, not_(cond))
        if self.pc is FALSE:
            raise Dead()

    # ------------------------------------------------------------ statements
    def run_block(self, body, env, mod):
        for s in body:
            if self.pc is FALSE:
                return
            try:
                self.stmt(s, env, mod)
            except Dead:
                self.pc = FALSE
                return

    def stmt(self, s, env, mod):
        self.cur = s
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.emit('unknown', type(s).__name__)
            return
        m(s, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def s_Assert(self, s, env, mod):
        c = self.truth(self.ev(s.test, env, mod))
        self.throw('AssertionError', cond=not_(c))

    def s_Import(self, s, env, mod):
        for a in s.names:
            m = self.imp(a.name)
            if a.asname:
                self.assign_name(a.asname, m, env, mod)
            else:
                top = a.name.split('.')[0]
                self.assign_name(top, self.imp(top), env, mod)

    def imp(self, name):
        if name.split('.')[0] in ('pymaster', 'spec'):
            return self.module(name)
        return Builtin(name)

    def s_ImportFrom(self, s, env, mod):
        base = s.module or ''
        if s.level:
            pk = mod.name.split('.')
            if not (mod.path or '').endswith('__init__.py'):
                pk = pk[:-1]
            pk = pk[:len(pk) - s.level + 1]
            base = '.'.join(pk + ([base] if base else []))
        for a in s.names:
            if base.split('.')[0] in ('pymaster', 'spec'):
                full = base + '.' + a.name
                p = os.path.join(self.repo, *full.split('.')) + '.py'
                if os.path.exists(p) or full == 'pymaster.nmtlib':
                    v = self.module(full)
                else:
                    m = self.module(base)
                    v = m.vars.get(a.name, Opq('import'))
            else:
                v = self.lib.getattr(Builtin(base), a.name)
            self.assign_name(a.asname or a.name, v, env, mod)

    def s_FunctionDef(self, s, env, mod):
        f = self.mkfunc(s, env, mod)
        v = f
        for d in reversed(s.decorator_list):
            nm = d.id if isinstance(d, ast.Name) else ast.unparse(d)
            if nm in ('classmethod', 'staticmethod', 'property'):
                v = (nm, v)
            elif nm.endswith('.setter'):
                v = ('setter', v)
            else:
                v = self.call(self.ev(d, env, mod), [v], {}, s)
        if isinstance(v, tuple) and v[0] == 'setter':
            old = env.vars.get(s.name)
            v = ('property', old[1] if isinstance(old, tuple) else None, v[1])
        self.assign_name(s.name, v, env, mod)

    def mkfunc(self, s, env, mod, name=None):
        f = Func(s, env, mod, name or getattr(s, 'name', '<lambda>'))
        f.defaults = [self.ev(d, env, mod) for d in s.args.defaults]
        f.kwdefaults = [None if d is None else self.ev(d, env, mod) for d in s.args.kw_defaults]
        f.file = self.curfile
        return f

    def s_ClassDef(self, s, env, mod):
        bases = [self.ev(b, env, mod) for b in s.bases]
        c = Class(s.name, bases, mod)
        ce = Env(env)
        ce.vars = c.attrs
        ce.isclass = True
        self.run_block(s.body, ce, mod)
        for v in c.attrs.values():
            for f in (v if isinstance(v, tuple) else (v,)):
                if isinstance(f, Func):
                    f.cls = c
                    f.env = env
        self.assign_name(s.name, c, env, mod)

    def s_Global(self, s, env, mod):
        env.globals |= set(s.names)

    def s_Nonlocal(self, s, env, mod):
        env.nonlocals |= set(s.names)

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.wr_d(env.vars, t.id, UNSET)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, mod)
                if isinstance(o, Inst):
                    self.wr_d(o.attrs, t.attr, UNSET)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                k = self.ev(t.slice, env, mod)
                if isinstance(o, PyDict) and self.hashable(k):
                    self.mutated(o)
                    self.wr_a(o, 'items', {a: b for a, b in o.items.items() if a != k})

    def s_Return(self, s, env, mod):
        v = self.ev(s.value, env, mod) if s.value is not None else None
        self.frames[-1].rets.append((self.pc, v))
        self.pc = FALSE

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            if getattr(self, 'handling', None):
                self.throw(self.handling.name, self.handling.cls)
            self.throw('Exception')
        v = self.ev(s.exc, env, mod)
        if isinstance(v, Class):
            v = Exc(self.excname(v), v)
        elif isinstance(v, Builtin):
            v = Exc(v.name)
        elif isinstance(v, Inst):
            v = Exc(self.excname(v.cls), v.cls)
        if isinstance(v, Exc):
            self.throw(v.name, v.cls)
        self.throw('Exception')

    @staticmethod
    def excname(c):
        while isinstance(c, Class):
            if not c.bases:
                return 'Exception'
            c = c.bases[0]
        return c.name if isinstance(c, Builtin) else 'Exception'

    def s_If(self, s, env, mod):
        c = self.truth(self.ev(s.test, env, mod))
        pc0 = self.pc

        def run(body):
            def f():
                self.run_block(body, env, mod)
                return None
            return f
        self.branch(c, run(s.body), run(s.orelse))
        del pc0

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env, mod)
            v = self.ev(s.value, env, mod)
            r = self.inplace(op, old, v)
            self.assign(t, r, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            old = self.getattr(o, t.attr)
            v = self.ev(s.value, env, mod)
            r = self.inplace(op, old, v)
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.index(t.slice, env, mod)
            v = self.ev(s.value, env, mod)
            self.lift(lambda oo: self.augsub(oo, k, op, v), o)

    def augsub(self, o, k, op, v):
        if isinstance(o, Arr):
            a = self.lib.subscript(o, k)
            if isinstance(a, Arr):
                if a.buf is o.buf:
                    self.lib.store(a, self.lib.binop(op, a, v))
                else:
                    self.lib.setitem(o, k, self.lib.binop(op, a, v))
                return
            self.lib.setitem(o, k, self.lib.binop(op, a, v))
            return
        old = self.lib.subscript(o, k)
        self.setsub(o, k, self.inplace(op, old, v))

    def inplace(self, op, old, v):
        def go(o, w):
            if isinstance(o, Arr):
                self.lib.store(o, self.lib.binop(op, o, w))
                return o
            if isinstance(o, PyList) and op == 'Add':
                self.mutated(o)
                self.wr_a(o, 'items', o.items + self.iterate(w))
                return o
            return self.lib.binop(op, o, w)
        return self.lift(go, old, v)

    def mutated(self, o):
        """a list, dictionary or instance is about to change"""
        if getattr(o, 'kind', '') != 'fresh':
            self.emit('write', o.kind, (o,))

    def s_For(self, s, env, mod):
        it = self.ev(s.iter, env, mod)
        items = self.iterate(it, s)
        if items is None:
            self.symloop(s, it, env, mod)
            return
        self.loop(s, items, env, mod)

    def loop(self, s, items, env, mod):
        brk = []
        self.loops.append(brk)
        try:
            n = 0
            entry = self.pc
            for x in items:
                n += 1
                if n > self.MAXIT:
                    self.emit('unknown', 'long loop')
                    break
                cont = []
                self.conts.append(cont)
                self.assign(s.target, x, env, mod)
                self.run_block(s.body, env, mod)
                self.conts.pop()
                if cont:
                    self.pc = or_(self.pc, *cont)
                if self.pc is FALSE:
                    break
            if self.pc is not FALSE and s.orelse:
                self.run_block(s.orelse, env, mod)
            if brk:
                self.pc = or_(self.pc, *brk)
            if self.pc is not FALSE and brk and T.implies(entry, self.pc):
                self.pc = entry
        finally:
            self.loops.pop()
        if self.pc is FALSE:
            raise Dead()

    loops = []
    conts = []

    def s_Break(self, s, env, mod):
        self.loops[-1].append(self.pc)
        self.pc = FALSE

    def s_Continue(self, s, env, mod):
        self.conts[-1].append(self.pc)
        self.pc = FALSE

    def s_While(self, s, env, mod):
        brk = []
        self.loops.append(brk)
        try:
            n = 0
            while True:
                c = self.truth(self.ev(s.test, env, mod))
                if T.implies(self.pc, not_(c)):
                    break
                if not (c is TRUE or T.implies(self.pc, c)) or n > 500:
                    self.symloop(s, None, env, mod)
                    break
                n += 1
                cont = []
                self.conts.append(cont)
                self.run_block(s.body, env, mod)
                self.conts.pop()
                if cont:
                    self.pc = or_(self.pc, *cont)
                if self.pc is FALSE:
                    break
            if brk:
                self.pc = or_(self.pc, *brk)
        finally:
            self.loops.pop()
        if self.pc is FALSE:
            raise Dead()

    def symloop(self, s, it, env, mod):
        """A loop that cannot be unrolled.  Element stores indexed by the loop variable are
        summarised; anything else the body changes becomes unknown."""
        k = sym('k@%d' % self.steps, True)
        hi = None
        val = Opq('loopvar')
        pre = None
        if isinstance(it, Arr) and len(it.shape) >= 1:
            hi = dimt(it.shape[0])
            val = self.lib.subscript(it, (k,))
        elif isinstance(it, tuple) and it and it[0] == 'range':
            lo, hi, st = it[1:]
            hi = sub(hi, lo)
            val = add(lo, k)
            if ci(st) != 1:
                hi = None
        elif isinstance(it, tuple) and it and it[0] in ('enumerate', 'zip'):
            try:
                hi, val = self.symiter(it, k)
            except Broken:
                hi = None
        pc, live = self.pc, self.live
        j = {}
        self.journal.append(j)
        self.loops.append([])
        self.conts.append([])
        ne = len(self.effects)
        handlers = len(self.handlers[-1])
        rets = len(self.frames[-1].rets) if self.frames else 0
        old = self.sym
        self.sym = (k, hi)
        try:
            if hi is not None:
                self.pc = and_(pc, le(ZERO, k), lt(k, hi))
            if isinstance(s, ast.For):
                self.assign(s.target, val, env, mod)
            try:
                self.run_block(s.body, env, mod)
            except Dead:
                pass
            if self.conts[-1]:
                self.pc = or_(self.pc, *self.conts[-1])
        finally:
            self.sym = old
            clean = not self.loops.pop() and not self.conts.pop()
            self.journal.pop()
        out = len(self.frames[-1].rets) if self.frames else 0
        for key, e in j.items():
            t = key[0]
            new = self._cur(e, t)
            v = Opq('loop')
            if t == 'a' and key[2] == 'fn' and isinstance(e[0], Buf):
                v = self.elemstore(e[0], k, hi) if hi is not None and clean else None
                if v is None:
                    u = fn('?loop', (num(self.steps), num(e[0].id)))
                    v = (lambda u: lambda ix: fn('?loop', (u,) + tuple(ix)))(u)
            elif t == 'a' and isinstance(e[0], PyList):
                v = [Opq('loop')]
            elif t == 'a' and isinstance(e[0], PyDict):
                v = {'?': Opq('loop')}
            elif isinstance(new, Term) and hi is not None and clean:
                v = self.reduction(e[2], new, k, hi) or v
            self._set(e, t, v)
            if self.journal:
                self.journal[-1].setdefault(key, e)
        self.stlog = [x for x in self.stlog if x[1] is not k]
        self.pc, self.live = pc, live
        # a raise in some iteration: unknown for the rest
        hs = self.handlers[-1][handlers:]
        if hs or out != rets:
            rem = [fn('?loopraise', (num(self.steps),), True)]
            self.pc = and_(pc, T.truth(rem[0]))
        for e in self.effects[ne:]:
            e.loop = True

    sym = (None, None)
    stlog = []

    def reduction(self, old, new, k, hi):
        if not isinstance(old, Term):
            return None
        d = sub(new, old)
        if k in T.free(d) or True:
            if any(x is old for x in T.subterms(d)) and T.cval(old) is None:
                return None
            if T.cval(old) is not None and not T.isbool(new):
                L = T.Loop(ZERO, hi)
                return add(old, T.sum_(L, TRUE, T.subst(d, {k: L.sym})))
        return None

    def elemstore(self, buf, k, hi):
        """content of a buffer after a loop whose stores are indexed by the loop variable"""
        es = [x for x in self.stlog if x[0] is buf and x[1] is k]
        if not es:
            return None
        f = es[0][2]                 # content before the first store
        for (_, _, _, inv, pc, val) in es:
            def mk(f, inv, pc, val):
                def g(ix):
                    c, vx = inv(ix)
                    c = and_(c, pc)
                    kk = solve(c, k)
                    if kk is None:
                        return fn('?loopstore', tuple(ix))
                    m = {k: kk}
                    cc = T.subst(c, m)
                    v = T.subst(val(vx), m)
                    if k in T.free(v):
                        return fn('?loopstore', tuple(ix))
                    return ite(cc, num_(v), num_(f(ix)))
                return g
            f = mk(f, inv, pc, val)
        return f

    def symiter(self, it, k):
        if isinstance(it, Arr):
            return dimt(it.shape[0]), self.lib.subscript(it, (k,))
        if isinstance(it, tuple) and it and it[0] == 'range':
            if ci(it[3]) != 1:
                raise Broken()
            return sub(it[2], it[1]), add(it[1], k)
        if isinstance(it, tuple) and it and it[0] == 'enumerate':
            hi, v = self.symiter(it[1], k)
            return hi, (add(it[2], k), v)
        if isinstance(it, tuple) and it and it[0] == 'zip':
            r = [self.symiter(x, k) for x in it[1]]
            return r[0][0], tuple(x[1] for x in r)
        raise Broken()

    def s_Try(self, s, env, mod):
        h = []
        self.handlers.append(h)
        try:
            self.run_block(s.body, env, mod)
        finally:
            self.handlers.pop()
        normal = self.pc
        left = list(h)
        if normal is not FALSE and s.orelse:
            self.run_block(s.orelse, env, mod)
            normal = self.pc
        ends = [normal]
        for hd in s.handlers:
            names = self.excnames(hd.type, env, mod)
            mine = [(p, e) for p, e in left if names is None or any(
                (n[1] is not None and e.cls is not None and e.cls.isa(n[1])) or
                (n[1] is None and excisa(e.name, n[0])) for n in names)]
            left = [x for x in left if x not in mine]
            if not mine:
                continue
            for p, e in mine:
                self.emit('caught', e.name)
                self.effects[-1].pc = p
            self.pc = or_(*[p for p, e in mine])
            old = getattr(self, 'handling', None)
            self.handling = mine[0][1]
            if hd.name:
                self.assign_name(hd.name, mine[0][1], env, mod)
            if normal is not FALSE:
                cond = self.pc
                self.pc = or_(normal, cond)
                end = [FALSE]

                def run(body=hd.body):
                    self.run_block(body, env, mod)
                    end[0] = self.pc
                try:
                    self.branch(cond, run, lambda: None)
                except Dead:
                    self.pc = FALSE
                ends = [self.pc]
                normal = self.pc
            else:
                self.run_block(hd.body, env, mod)
                ends.append(self.pc)
            self.handling = old
        self.pc = or_(*ends)
        if s.finalbody:
            end = self.pc
            fr = self.frames[-1] if self.frames else None
            pend = [p for p, e in left]
            rets = [p for p, v in fr.rets if T.implies(p, self.trypc)] if fr and self.trypc else []
            self.pc = or_(end, *(pend + (rets if end is FALSE else [])))
            if self.pc is FALSE and fr and fr.rets:
                self.pc = fr.rets[-1][0]
            before = self.pc
            self.run_block(s.finalbody, env, mod)
            if self.pc is before:
                self.pc = end
            elif self.pc is not FALSE:
                self.pc = and_(end, self.pc)
        self.handlers[-1].extend(left)
        if self.pc is FALSE:
            raise Dead()

    trypc = None

    def excnames(self, t, env, mod):
        if t is None:
            return None
        v = self.ev(t, env, mod)
        out = []
        for x in (v if type(v) is tuple else (v,)):
            if isinstance(x, Builtin):
                out.append((x.name.split('.')[-1], None))
            elif isinstance(x, Class):
                out.append((x.name, x))
        return out

    s_TryStar = s_Try

    def s_With(self, s, env, mod):
        mgr = []
        for it in s.items:
            v = self.ev(it.context_expr, env, mod)
            mgr.append(v)
            r = v
            if isinstance(v, Inst) and v.cls.lookup('__enter__'):
                r = self.call(self.getattr(v, '__enter__'), [], {}, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, env, mod)
        h = []
        self.handlers.append(h)
        try:
            self.run_block(s.body, env, mod)
        finally:
            self.handlers.pop()
        end = self.pc
        fr = self.frames[-1] if self.frames else None
        for v in reversed(mgr):
            if isinstance(v, Inst) and v.cls.lookup('__exit__'):
                self.pc = or_(end, *[p for p, e in h])
                if self.pc is FALSE and fr and fr.rets:
                    self.pc = fr.rets[-1][0]
                self.call(self.getattr(v, '__exit__'), [None, None, None], {}, s)
        self.pc = end
        self.handlers[-1].extend(h)
        if self.pc is FALSE:
            raise Dead()

    # ------------------------------------------------------------ assignment
    def assign_name(self, n, v, env, mod):
        if n in env.globals:
            self.wr_d(mod.vars, n, v)
            return
        if n in env.nonlocals and env.parent is not None:
            e = env.parent.find(n)
            if e is not None:
                self.wr_d(e.vars, n, v)
                return
        # a local name is only visible where the path goes on
        live, self.live = self.live, TRUE
        try:
            self.wr_d(env.vars, n, v)
        finally:
            self.live = live

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env, mod)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            n = len(t.elts)
            items = self.unpack(v, n, bool(star))
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                items = items[:i] + [PyList(items[i:i + k])] + items[i + k:]
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.index(t.slice, env, mod)
            self.setsub(o, k, v)

    def unpack(self, v, n, star=False):
        if isinstance(v, Ch):
            cols = []
            for c, w in v.alts:
                cols.append((c, self.unpack(w, n, star)))
            out = cols[-1][1]
            for c, items in reversed(cols[:-1]):
                out = [self.merge(c, a, b) for a, b in zip(items, out)]
            return out
        items = self.iterate(v)
        if items is None:
            if isinstance(v, Arr) and len(v.shape) >= 1:
                self.throw('ValueError', cond=not_(eq(dimt(v.shape[0]), num(n))))
                return [self.lib.subscript(v, (num(i),)) for i in range(n)]
            return [Opq('unpack') for i in range(n)]
        if not star and len(items) != n or star and len(items) < n - 1:
            self.throw('ValueError')
        return items

    def setattr(self, o, a, v):
        if isinstance(o, Ch):
            for c, w in o.alts:
                self.branch(c, lambda w=w: self.setattr(w, a, v), lambda: None)
            return
        if isinstance(o, Inst):
            r = o.cls.lookup(a)
            if r is not None and isinstance(r[0], tuple) and r[0][0] == 'property':
                if len(r[0]) > 2:
                    self.call(Bound(o, r[0][2]), [v], {}, self.cur)
                    return
                self.throw('AttributeError')
            self.mutated(o)
            self.wr_d(o.attrs, a, v)
            self.emit('setattr', a, (o, v))
        elif isinstance(o, Class):
            self.wr_d(o.attrs, a, v)
        elif isinstance(o, Module):
            self.wr_d(o.vars, a, v)
        elif isinstance(o, Handle):
            self.emit('handleset', a, (o, v))
            self.wr_d(o.sub, a, v)
        elif isinstance(o, Arr) and a == 'shape':
            self.emit('unknown', 'shape assignment')
        else:
            self.emit('unknown', 'setattr %s' % a)

    def setsub(self, o, k, v):
        if isinstance(o, Ch):
            for c, w in o.alts:
                self.branch(c, lambda w=w: self.setsub(w, k, v), lambda: None)
            return
        if isinstance(o, Arr):
            self.lib.setitem(o, k, v)
        elif isinstance(o, PyList):
            self.mutated(o)
            kk = k[0] if len(k) == 1 else None
            i = ci(kk)
            if i is not None and -len(o.items) <= i < len(o.items):
                it = list(o.items)
                it[i] = v
                self.wr_a(o, 'items', it)
            else:
                self.wr_a(o, 'items', [Opq('list') for x in o.items])
        elif isinstance(o, PyDict):
            self.mutated(o)
            kk = k[0] if len(k) == 1 else tuple(k)
            if self.hashable(kk):
                d = dict(o.items)
                d[kk] = v
                self.wr_a(o, 'items', d)
            else:
                self.wr_a(o, 'items', {'?': Opq('dict')})
        elif isinstance(o, Builtin) and o.name == 'os.environ':
            self.emit('environ', 'set', (k, v))
        else:
            self.emit('unknown', 'setitem')

    @staticmethod
    def hashable(k):
        return isinstance(k, (str, Term, tuple)) or k is None or isinstance(k, Builtin)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, n=None):
        """list of the items, or None when the length is symbolic"""
        if isinstance(v, PyList):
            return None if v.more is not None else list(v.items)
        if isinstance(v, PyDict):
            return list(v.items)
        if type(v) is tuple:
            if v and isinstance(v[0], str) and v[0] == 'range' and len(v) == 4:
                lo, hi, st = (ci(x) for x in v[1:])
                if None in (lo, hi, st):
                    return None
                return [num(i) for i in range(lo, hi, st)]
            if v and isinstance(v[0], str) and v[0] == 'enumerate' and len(v) == 3:
                it = self.iterate(v[1])
                return None if it is None else [(add(v[2], num(i)), x) for i, x in enumerate(it)]
            if v and isinstance(v[0], str) and v[0] == 'zip' and len(v) == 2:
                its = [self.iterate(x) for x in v[1]]
                if any(i is None for i in its):
                    if all(i is None for i in its):
                        return None
                    # a concrete iterable bounds the others
                    m = min(len(i) for i in its if i is not None)
                    return [tuple(i[j] if i is not None else self.lib.subscript(x, (num(j),))
                                  for i, x in zip(its, v[1])) for j in range(m)]
                return [tuple(x) for x in zip(*its)]
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr) and len(v.shape) >= 1:
            k = ci(dimt(v.shape[0]))
            if k is None:
                return None
            return [self.lib.subscript(v, (num(i),)) for i in range(k)]
        if isinstance(v, Ch):
            its = [(c, self.iterate(w)) for c, w in v.alts]
            if any(i is None for c, i in its) or len(set(len(i) for c, i in its)) != 1:
                return None
            out = its[-1][1]
            for c, i in reversed(its[:-1]):
                out = [self.merge(c, a, b) for a, b in zip(i, out)]
            return out
        return None

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is None:
            return FALSE
        if isinstance(v, Term):
            return T.truth(v)
        if isinstance(v, str):
            return TRUE if v else FALSE
        if type(v) is tuple:
            return TRUE if v else FALSE
        if isinstance(v, PyList):
            return TRUE if v.items else FALSE
        if isinstance(v, PyDict):
            return TRUE if v.items else FALSE
        if isinstance(v, Ch):
            out = FALSE
            for c, w in v.alts:
                out = or_(out, and_(c, self.truth(w)))
            return out
        if isinstance(v, Opq):
            return T.truth(v.term)
        if isinstance(v, Arr):
            if not v.shape:
                return T.truth(num_(v.at(())))
            if all(ci(dimt(d)) == 1 for d in v.shape):
                return T.truth(v.at([ZERO] * len(v.shape)))
            self.throw('ValueError')
        return TRUE

    # ------------------------------------------------------------ expressions
    def ev(self, n, env, mod):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return Opq(type(n).__name__)
        return m(n, env, mod)

    def e_Constant(self, n, env, mod):
        v = n.value
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, complex):
            return mul(num(v.imag), fn('I', ()))
        return Opq('const')

    def e_Name(self, n, env, mod):
        e = env
        if n.id in env.globals:
            e = None
        first = True
        while e is not None:
            if n.id in e.vars and (first or not getattr(e, 'isclass', False)):
                return self.defined(e.vars[n.id], 'NameError')
            e = e.parent
            first = False
        if n.id in mod.vars:
            return self.defined(mod.vars[n.id], 'NameError')
        b = self.lib.builtin(n.id)
        if b is None:
            self.throw('NameError')
        return b

    def defined(self, v, exc):
        if isinstance(v, Ch) and any(w is UNSET for c, w in v.alts):
            c = or_(*[c for c, w in v.alts if w is UNSET])
            self.throw(exc, cond=c)
            alts = [(c, w) for c, w in v.alts if w is not UNSET]
            return alts[0][1] if len(alts) == 1 else Ch(alts)
        return v

    def e_Tuple(self, n, env, mod):
        return tuple(self.elts(n.elts, env, mod))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, env, mod))
                out += it if it is not None else [Opq('star')]
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_List(self, n, env, mod):
        return PyList(self.elts(n.elts, env, mod))

    e_Set = e_List

    def e_Dict(self, n, env, mod):
        d = PyDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                w = self.ev(v, env, mod)
                if isinstance(w, PyDict):
                    d.items.update(w.items)
                continue
            kk = self.ev(k, env, mod)
            d.items[kk if self.hashable(kk) else '?'] = self.ev(v, env, mod)
        return d

    def e_JoinedStr(self, n, env, mod):
        out = ''
        for x in n.values:
            if isinstance(x, ast.Constant):
                out += x.value
            else:
                v = self.ev(x.value, env, mod)
                if isinstance(v, str):
                    out += v
                elif ci(v) is not None:
                    out += str(ci(v))
                else:
                    return Opq('str') if not isinstance(n, ast.JoinedStr) else self.rest(n, env, mod)
        return out

    def rest(self, n, env, mod):
        for x in n.values:
            if not isinstance(x, ast.Constant):
                self.ev(x.value, env, mod)
        return Opq('str')

    def e_IfExp(self, n, env, mod):
        c = self.truth(self.ev(n.test, env, mod))
        return self.branch(c, lambda: self.ev(n.body, env, mod), lambda: self.ev(n.orelse, env, mod))

    def e_BoolOp(self, n, env, mod):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.ev(n.values[i], env, mod)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: v if not isinstance(v, Term) or
                                   not T.isbool(v) else FALSE)
            return self.branch(c, lambda: v if not isinstance(v, Term) or not T.isbool(v) else TRUE,
                               lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, n, env, mod):
        v = self.ev(n.operand, env, mod)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        return self.lift(lambda x: self.lib.unop(type(n.op).__name__, x), v)

    def e_BinOp(self, n, env, mod):
        a = self.ev(n.left, env, mod)
        b = self.ev(n.right, env, mod)
        r = self.lift(lambda x, y: self.lib.binop(type(n.op).__name__, x, y), a, b)
        if isinstance(r, Arr) and r.dtype == 'i?':
            # the literal operands tell integers from floats
            k = [x.operand if isinstance(x, ast.UnaryOp) else x for x in (n.left, n.right)]
            if any(isinstance(x, ast.Constant) and isinstance(x.value, float) for x in k):
                r.buf.dtype = 'f8'
            elif all(isinstance(v, Arr) and v.dtype in ('i8', 'i4', 'u8') or
                     isinstance(x, ast.Constant) for x, v in zip(k, (a, b))):
                r.buf.dtype = 'i8'
        return r

    def e_Compare(self, n, env, mod):
        left = self.ev(n.left, env, mod)
        out = None
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, env, mod)
            v = self.lift(lambda x, y: self.compare(type(op).__name__, x, y), left, r)
            if out is None:
                out = v
            else:
                out = and_(self.truth(out), self.truth(v)) if not isinstance(v, Arr) else Opq('cmp')
            left = r
        return out

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return not_(r) if op == 'IsNot' else r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return not_(r) if op == 'NotIn' else r
        return self.lib.compare(op, a, b)

    def identical(self, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y is None:
                return T.truth(fn('?isnone', (x.term,))) if isinstance(x, Opq) else FALSE
        if isinstance(a, Opq) or isinstance(b, Opq):
            return T.truth(fn('?is', ()))
        if isinstance(a, Term) and isinstance(b, Term):
            if T.isbool(a) and T.isbool(b):
                return eq(num_(a), num_(b))
            if T.isbool(a) != T.isbool(b):
                return FALSE
            return eq(a, b)
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return TRUE if a == b else FALSE
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        return FALSE

    def contains(self, c, x):
        if isinstance(c, Builtin):
            return T.truth(fn('in:' + c.name, (T.str_(x),))) if isinstance(x, str) else \
                T.truth(Opq('in').term)
        if isinstance(c, PyDict):
            if isinstance(x, (str,)) or ci(x) is not None:
                return TRUE if x in c.items else FALSE
            return or_(*[self.truth(self.lib.compare('Eq', x, k)) for k in c.items]) \
                if c.items else FALSE
        if isinstance(c, str) and isinstance(x, str):
            return TRUE if x in c else FALSE
        it = self.iterate(c)
        if it is None:
            return T.truth(Opq('in').term)
        return or_(FALSE, *[self.truth(self.lib.compare('Eq', x, k)) for k in it])

    def e_Lambda(self, n, env, mod):
        return self.mkfunc(n, env, mod, '<lambda>')

    def e_NamedExpr(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        self.assign(n.target, v, env, mod)
        return v

    def e_Starred(self, n, env, mod):
        return self.ev(n.value, env, mod)

    def e_Attribute(self, n, env, mod):
        return self.getattr(self.ev(n.value, env, mod), n.attr)

    def e_Slice(self, n, env, mod):
        return Slice(*[None if x is None else self.ev(x, env, mod)
                       for x in (n.lower, n.upper, n.step)])

    def index(self, n, env, mod):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev(x, env, mod) for x in n.elts)
        v = self.ev(n, env, mod)
        return v if type(v) is tuple else (v,)

    def e_Subscript(self, n, env, mod):
        o = self.ev(n.value, env, mod)
        k = self.index(n.slice, env, mod)
        return self.lift(lambda x: self.lib.subscript(x, k), o)

    def comp(self, gens, env, mod, leaf):
        """evaluates a comprehension; returns a list or a lazily described Arr"""
        e = Env(env)
        out = []

        def go(i):
            if i == len(gens):
                out.append(leaf(e))
                return
            g = gens[i]
            itv = self.ev(g.iter, e, mod)
            it = self.iterate(itv)
            if it is None:
                raise Broken(itv, g, i)
            for x in it:
                self.assign(g.target, x, e, mod)
                c = TRUE
                for f in g.ifs:
                    c = and_(c, self.truth(self.ev(f, e, mod)))
                if c is TRUE or T.implies(self.pc, c):
                    go(i + 1)
                elif c is FALSE or T.implies(self.pc, not_(c)):
                    continue
                else:
                    raise Broken(None, g, i)
        try:
            go(0)
            return out
        except Broken as b:
            if len(gens) == 1 and b.args and b.args[0] is not None and not gens[0].ifs:
                k = sym('c@%d' % self.steps, True)
                self.steps += 1
                try:
                    hi, v = self.symiter(b.args[0], k)
                except Broken:
                    return None
                pc = self.pc
                self.pc = and_(pc, le(ZERO, k), lt(k, hi))
                self.assign(gens[0].target, v, e, mod)
                r = leaf(e)
                self.pc = pc
                return self.lib.comprehend(r, k, hi)
            return None

    def e_ListComp(self, n, env, mod):
        r = self.comp(n.generators, env, mod, lambda e: self.ev(n.elt, e, mod))
        if r is None:
            return Opq('comprehension')
        if isinstance(r, list):
            return PyList(r)
        return r

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, env, mod):
        r = self.comp(n.generators, env, mod, lambda e: (self.ev(n.key, e, mod),
                                                         self.ev(n.value, e, mod)))
        if not isinstance(r, list):
            return Opq('comprehension')
        return PyDict({(k if self.hashable(k) else '?'): v for k, v in r})

    # ------------------------------------------------------------ attributes
    def getattr(self, o, a, default=UNSET):
        if isinstance(o, Ch):
            return self.lift(lambda x: self.getattr(x, a, default), o)
        if isinstance(o, Inst):
            r = o.cls.lookup(a)
            if r is not None and isinstance(r[0], tuple) and r[0][0] == 'property':
                return self.call(Bound(o, r[0][1]), [], {}, self.cur)
            if a in o.attrs:
                return self.defined(o.attrs[a], 'AttributeError')
            if a == '__class__':
                return o.cls
            if a == '__dict__':
                return PyDict(o.attrs)
            if r is not None:
                v = r[0]
                if isinstance(v, tuple) and v and v[0] == 'classmethod':
                    return Bound(o.cls, v[1])
                if isinstance(v, tuple) and v and v[0] == 'staticmethod':
                    return v[1]
                if isinstance(v, Func):
                    return Bound(o, v)
                return v
            if default is not UNSET:
                return default
            if any(isinstance(b, (Opq, Builtin)) and getattr(b, 'name', '') != 'object'
                   for b in o.cls.bases):
                return Opq('attr')
            self.emit('noattr', a, (o,))
            self.throw('AttributeError')
        if isinstance(o, Class):
            r = o.lookup(a)
            if r is not None:
                v = r[0]
                if isinstance(v, tuple) and v and v[0] == 'classmethod':
                    return Bound(o, v[1])
                if isinstance(v, tuple) and v and v[0] == 'staticmethod':
                    return v[1]
                return v
            if a == '__name__':
                return o.name
            if default is not UNSET:
                return default
            self.throw('AttributeError')
        if isinstance(o, Module):
            if o.name == 'pymaster.nmtlib':
                return Builtin('lib.' + a)
            if a in o.vars:
                return o.vars[a]
            full = o.name + '.' + a
            if full in self.modules:
                return self.modules[full]
            if os.path.exists(os.path.join(self.repo, *full.split('.')) + '.py'):
                return self.module(full)
            if default is not UNSET:
                return default
            self.throw('AttributeError')
        if isinstance(o, Handle):
            return self.lib.handleattr(o, a)
        if o is None:
            if default is not UNSET:
                return default
            self.throw('AttributeError')
        return self.lib.getattr(o, a, default)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, env, mod):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return self.super_(n, env, mod)
        f = self.ev(n.func, env, mod)
        args = self.elts(n.args, env, mod)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                if isinstance(d, PyDict):
                    for a, b in d.items.items():
                        kw[a] = b
                else:
                    kw['**'] = Opq('kwargs')
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        self.cur = n
        return self.call(f, args, kw, n)

    def super_(self, n, env, mod):
        fr = self.frames[-1]
        e = env.find('self') or env.find('cls')
        me = e.vars.get('self', e.vars.get('cls')) if e else None
        return ('super', fr.func.cls, me)

    def call(self, f, args, kw, n):
        if isinstance(f, Ch):
            return self.lift(lambda g: self.call(g, args, kw, n), f)
        if isinstance(f, Bound):
            return self.call(f.f, [f.obj] + list(args), kw, n)
        if isinstance(f, Func):
            return self.callfunc(f, args, kw, n)
        if isinstance(f, Class):
            if any(self.excbase(b) for b in f.bases):
                return Exc(self.excname(f), f)
            o = Inst(f)
            o.cls = f
            o.born = self.pc
            self.instances.append(o)
            r = f.lookup('__init__')
            self.emit('new', f.name, (o,))
            if r is not None:
                if isinstance(r[0], Func):
                    b = self.bind(r[0], [o] + list(args), kw)
                    o.key = fn('new:' + f.name, tuple(fn('kw:' + k, (self.lib.key(b[k]),))
                                                      for k in sorted(b) if b[k] is not o))
                self.building.append(o)
                try:
                    self.call(Bound(o, r[0]), args, kw, n)
                finally:
                    self.building.pop()
            o.snap0 = {a: (v, v.buf.fn if isinstance(v, Arr) else None) for a, v in o.attrs.items()}
            return o
        if isinstance(f, Builtin):
            return self.lib.call(f, args, kw, n)
        if isinstance(f, Inst):
            r = f.cls.lookup('__call__')
            if r is not None:
                return self.call(Bound(f, r[0]), args, kw, n)
        if type(f) is tuple and f and f[0] == 'method':
            return self.lift(lambda o: self.lib.method(o, f[2], args, kw, n), f[1])
        if callable(f) and not isinstance(f, Term):
            return f(args, kw)
        if f is None:
            self.throw('TypeError')
        if isinstance(f, (Term, str, Arr)):
            self.throw('TypeError')
        self.emit('unknown', 'call', args)
        return Opq('call')

    @staticmethod
    def excbase(b):
        while isinstance(b, Class):
            b = b.bases[0] if b.bases else None
        return isinstance(b, Builtin) and b.name in PYEXC

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        v = {}
        rest = []
        for i, x in enumerate(args):
            if i < len(names):
                v[names[i]] = x
            else:
                rest.append(x)
        kw = dict(kw)
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, x in kw.items():
            if k in names or k in kwn:
                if k in v:
                    self.throw('TypeError')
                v[k] = x
            else:
                extra[k] = x
        if rest and a.vararg is None:
            self.throw('TypeError')
        if extra and a.kwarg is None and '**' not in extra:
            self.throw('TypeError')
        d0 = len(names) - len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in v:
                if i >= d0:
                    v[nme] = f.defaults[i - d0]
                elif '**' in extra:
                    v[nme] = Opq('kwarg')
                else:
                    self.throw('TypeError')
        for nme, d in zip(kwn, f.kwdefaults):
            if nme not in v:
                if d is None and f.node.args.kw_defaults[kwn.index(nme)] is None:
                    self.throw('TypeError')
                v[nme] = d
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(rest)
        if a.kwarg is not None:
            v[a.kwarg.arg] = PyDict(extra)
        return v

    def qual(self, f):
        return '.'.join([f.mod.name] + ([f.cls.name] if f.cls else []) + [f.name])

    def callfunc(self, f, args, kw, n):
        v = self.bind(f, args, kw)
        q = self.qual(f)
        ov = self.overrides.get(q)
        if ov is not None:
            return ov(self, v, n)
        if self.depth > 60:
            return Opq('recursion')
        self.visited.add(q)
        env = Env(f.env)
        env.vars.update(v)
        fr = Frame(f)
        self.frames.append(fr)
        self.depth += 1
        file, cur, live = self.curfile, self.cur, self.live
        self.curfile = getattr(f, 'file', file)
        old = self.loops, self.conts
        self.loops, self.conts = [], []
        entry = self.pc
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, env, f.mod)
                fr.rets.append((self.pc, r))
                self.pc = FALSE
            else:
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                    return Opq('generator')
                self.run_block(f.node.body, env, f.mod)
        finally:
            self.frames.pop()
            self.depth -= 1
            self.curfile, self.cur = file, cur
            self.loops, self.conts = old
            self.live = live
        rets = fr.rets
        if self.pc is not FALSE:
            rets = rets + [(self.pc, None)]
        if not rets:
            self.pc = FALSE
            raise Dead()
        if len(rets) == 1:
            self.pc = rets[0][0]
            return rets[0][1]
        # several exits: conditions relative to the entry
        out = rets[-1][1]
        for p, v in reversed(rets[:-1]):
            c = relative(p, entry)
            out = self.merge(c, v, out)
        pc = or_(*[p for p, v in rets])
        if T.implies(entry, pc):
            pc = entry
        else:
            # raises seen on the way narrow the entry condition
            pc = and_(entry, *[c for c in T.conj(rets[-1][0]) if all(
                T.implies(p, c) for p, v in rets)]) if self.norm(rets, entry) else pc
        self.pc = pc
        return out

    def norm(self, rets, entry):
        """do the exits cover everything but the conditions common to all of them?"""
        common = [c for c in T.conj(rets[-1][0]) if all(T.implies(p, c) for p, v in rets)]
        rel = [and_(*[c for c in T.conj(p) if c not in common]) for p, v in rets]
        return or_(*rel) is TRUE


def relative(p, entry):
    """the conjuncts of p beyond those of entry"""
    e = set(T.conj(entry))
    return and_(*[c for c in T.conj(p) if c not in e])


def solve(c, k):
    """value of k fixed by an equality of the conjunction c"""
    for x in T.conj(c):
        if x.op == 'eq0':
            pl = dict(T._poly(x.args[0]))
            co = pl.pop(((k, 1),), None)
            if co is not None and abs(co) == 1:
                r = T._frompoly({m: -v / co for m, v in pl.items()})
                if k not in T.free(r):
                    return r
    return None
