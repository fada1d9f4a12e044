"""Value-flow summaries of C functions.

One abstract pass over the resolved syntax tree of a function (callees defined
in /repo inlined) produces an ordered list of guarded effects: memory stores,
calls, allocations, releases, returns and error exits.  Conditions become
guards, joins become gated (ite) values, loops become loop summaries whose
index is a symbol ranging over [lo,hi), `x += e` becomes an accumulation.  No
path is enumerated and nothing is executed: every statement is visited once per
summary (twice inside loops, to find the loop-carried variables).
"""
import math
from fractions import Fraction
from .terms import *            # noqa
from . import terms as T
from . import cfront

INTT = ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'char', 'short', 'long long',
        'unsigned long long', 'npy_intp', 'Py_ssize_t', '_Bool', 'unsigned char', 'Py_intptr_t',
        'bool', 'int64_t', 'ssize_t', 'LONGLONG')


def is_int_type(t):
    t = (t or '').replace('const ', '').replace('volatile ', '').strip()
    return t in INTT


def is_ptr_type(t):
    t = (t or '').strip()
    return t.endswith('*') or t.endswith(']') or t.endswith('*const') or '(*)' in t


PURE = {'abs', 'fabs', 'sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan2', 'exp', 'log',
        'pow', 'fmod', 'floor', 'ceil', 'creal', 'cimag', 'conj', 'cpow', 'copysign', 'fabsf',
        'sqrtf', 'labs', 'cabs', 'cexp', 'round', 'atan', 'log10', 'powf', 'hypot'}
MALLOC = {'malloc': 'malloc', 'fftw_malloc': 'fftw', 'fftwf_malloc': 'fftw'}
GSLALLOC = {'gsl_matrix_alloc': ('gsl_matrix', 0), 'gsl_matrix_calloc': ('gsl_matrix', 1),
            'gsl_vector_alloc': ('gsl_vector', 0), 'gsl_vector_calloc': ('gsl_vector', 1),
            'gsl_permutation_alloc': ('gsl_permutation', 0),
            'gsl_eigen_symmv_alloc': ('gsl_eigen_symmv', 0),
            'gsl_interp_accel_alloc': ('gsl_interp_accel', 0),
            'gsl_spline_alloc': ('gsl_spline', 0), 'gsl_rng_alloc': ('gsl_rng', 0)}
FREE = {'free': 'malloc', 'fftw_free': 'fftw', 'fftwf_free': 'fftw',
        'gsl_matrix_free': 'gsl_matrix', 'gsl_vector_free': 'gsl_vector',
        'gsl_permutation_free': 'gsl_permutation', 'gsl_eigen_symmv_free': 'gsl_eigen_symmv',
        'gsl_interp_accel_free': 'gsl_interp_accel', 'gsl_spline_free': 'gsl_spline',
        'gsl_rng_free': 'gsl_rng'}
NOOP = {'fprintf', 'printf', 'fflush', '__builtin_va_start', '__builtin_va_end',
        '__builtin_object_size'}
# library functions whose pointer arguments are only read
READONLY = {'strcmp', 'strlen', 'gsl_matrix_get', 'gsl_vector_get', 'gsl_spline_eval',
            'gsl_rng_get', 'strncmp'}
# the argument of a library function through which a result is written
OUTARGS = {'gsl_linalg_LU_decomp': (0, 1, 2), 'gsl_linalg_LU_solve': (3,),
           'gsl_linalg_LU_invert': (2,), 'gsl_blas_dgemm': (6,), 'gsl_blas_dgemv': (5,),
           'gsl_eigen_symmv': (0, 1, 2), 'gsl_matrix_memcpy': (0,), 'gsl_vector_memcpy': (0,),
           'gsl_spline_init': (0,), 'gsl_rng_set': (), 'gsl_rng_uniform': (),
           'gsl_vector_max': (), 'fftw_execute': (), 'fftw_destroy_plan': ()}


class Effect(object):
    __slots__ = ('kind', 'loc', 'val', 'op', 'fn', 'args', 'pc', 'loops', 'omp', 'file', 'line',
                 'func', 'seq', 'res', 'red', 'node', 'extra', 'delta')

    def __init__(self, kind, **k):
        self.kind = kind
        self.loc = self.val = self.op = self.fn = self.args = self.res = None
        self.pc = TRUE
        self.loops = ()
        self.omp = ()
        self.file = None
        self.line = 0
        self.func = ''
        self.seq = 0
        self.red = ()
        self.node = None
        self.extra = None
        self.delta = None
        for a, b in k.items():
            setattr(self, a, b)

    def where(self):
        f = self.file or ''
        if f.startswith(cfront.REPO):
            f = f[len(cfront.REPO):].lstrip('/')
        return '%s:%s (%s)' % (f, self.line, self.func)

    def __repr__(self):
        s = '[%d] %s ' % (self.seq, self.kind)
        if self.loc:
            s += T.showloc(*self.loc)
        if self.op:
            s += ' %s ' % self.op
        if self.fn:
            s += self.fn + '(' + ', '.join(map(show, self.args or ())) + ')'
        if self.val is not None:
            s += ' <- ' + show(self.val) if self.kind != 'return' else show(self.val)
        if self.pc is not TRUE:
            s += '  if ' + show(self.pc)
        for l in self.loops:
            s += '  ' + repr(l)
        if self.omp:
            s += ' omp=%s' % (self.omp,)
        return s + '   @%s' % self.where()


class Entry(object):
    """Memory log entry"""
    __slots__ = ('base', 'steps', 'val', 'pc', 'loops', 'kind', 'red', 'eff', 'seq', 'n')


class State(object):
    __slots__ = ('env', 'pc', 'alive')

    def __init__(self, env, pc, alive=True):
        self.env = env
        self.pc = pc
        self.alive = alive

    def fork(self, c):
        pc = and_(self.pc, c)
        return State(dict(self.env), pc, self.alive and pc is not FALSE)


class Frame(object):
    _n = [0]

    def __init__(self, func, call=None):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.func = func
        self.call = call
        self.returns = []
        self.breaks = []
        self.conts = []


class Unsupported(Exception):
    pass


def div_mono(m, c, m0, c0):
    d = dict(m)
    for x, k in m0:
        if d.get(x, 0) < k:
            return None
        d[x] -= k
    if (Fraction(c) / c0).denominator != 1:
        return None
    return T._frompoly({tuple(sorted(((x, k) for x, k in d.items() if k),
                                     key=lambda z: z[0].uid)): Fraction(c) / c0})


def nosol(pl):
    """no integer solution of pl = 0 (divisibility)"""
    g = 0
    for m, c in pl.items():
        if getattr(c, 'denominator', 1) != 1 or not all(x.isint and k > 0 for x, k in m):
            return False
        if m:
            g = math.gcd(g, abs(int(c)))
    return g > 1 and int(pl.get((), 0)) % g != 0


class CEval(object):
    def __init__(self, prog, opaque=(), models=None, unroll=12, maxdepth=14, inline=None):
        self.P = prog
        self.opaque = set(opaque)
        self.models = models or {}
        self.unroll = unroll
        self.maxdepth = maxdepth
        self.effects = []
        self.log = []
        self.bybase = {}
        self.loops = []
        self.omp = []
        self.frames = []
        self.uid = 0
        self.seq = 0
        self.notes = []
        self.types = {}
        self.ompn = 0
        self.visited = set()
        self.calls_resolved = 0
        self.init = {}          # initial memory: (base, steps) -> Term
        self.decls = {}

    # ------------------------------------------------------------ utilities
    def new(self):
        self.uid += 1
        return self.uid

    def emit(self, kind, node=None, **k):
        st = self.st
        if not st.alive:
            return Effect(kind)
        self.seq += 1
        e = Effect(kind, pc=st.pc, loops=tuple(self.loops), omp=tuple(self.omp), seq=self.seq,
                   node=node, **k)
        fr = self.frames[-1]
        e.func = fr.func.name
        e.file = (node.file if node is not None and node.file else fr.func.file)
        e.line = node.line if node is not None else 0
        self.effects.append(e)
        return e

    def opaque_term(self, tag, isint=False):
        return sym('%s#%d' % (tag, self.new()), isint)

    # ------------------------------------------------------------ entry
    def run(self, fname, args=None, init=None, file=None, pc=TRUE):
        """Summarise function `fname`; args: {param name: Term} overriding symbols."""
        f = self.P.lookup(fname, file)
        if f is None:
            raise cfront.FrontError('function %s not found in the sources' % fname)
        args = args or {}
        self.st = State({}, pc)
        vals = []
        for p in f.params:
            if p.name in args and args[p.name] is not None:
                vals.append(args[p.name])
            else:
                vals.append(self.param(p))
        for (b, s), v in (init or {}).items():
            self.init[(b, tuple(s))] = v
        self.base_frame = Frame(f)
        r = self.call_function(f, vals, None)
        self.result = r
        return r

    def param(self, p):
        if is_ptr_type(p.type):
            return ptr(obj('param', p.name), (('i', ZERO),))
        return sym(p.name, is_int_type(p.type))

    def call_function(self, f, vals, node):
        if len(self.frames) >= self.maxdepth or any(fr.func is f for fr in self.frames):
            return self.opaque_call(f.name, vals, node, f.rtype)
        self.visited.add(f.name)
        fr = Frame(f, node)
        self.frames.append(fr)
        try:
            for i, p in enumerate(f.params):
                v = vals[i] if i < len(vals) else self.param(p)
                self.st.env[(fr.id, p.id)] = v
                self.decls[(fr.id, p.id)] = p
            entry_pc = self.st.pc
            kills = self.kills
            self.block(f.body)
            if self.st.alive:
                fr.returns.append((self.st, ZERO, f.body))
            if not fr.returns:
                self.st = State(self.st.env, FALSE, False)
                return sym('noreturn', True)
            st, v, _ = fr.returns[0]
            for s2, v2, _ in fr.returns[1:]:
                st, v = self.merge_ret(st, v, s2, v2)
            if self.kills == kills:
                st.pc = entry_pc
            self.st = st
            return v
        finally:
            self.frames.pop()

    def merge_ret(self, s1, v1, s2, v2):
        c = self.relcond(s1.pc, s2.pc)
        st = self.merge(s1, s2, c)
        return st, self.mite(c, v1, v2)

    def relcond(self, p1, p2):
        a, b = conj(p1), conj(p2)
        r = a - b
        # keep only what distinguishes: literals whose negation appears in the other
        neg_ = [x for x in r if not_(x) in b]
        if neg_:
            return and_(*neg_)
        return and_(*r) if r else TRUE

    def mite(self, c, a, b):
        return ite(c, a, b)

    def merge(self, s1, s2, c, pc=None):
        if not s1.alive:
            return s2
        if not s2.alive:
            return s1
        env = {}
        for k, v in s1.env.items():
            w = s2.env.get(k)
            if w is None:
                env[k] = v
            elif w is v:
                env[k] = v
            else:
                env[k] = self.mite(c, v, w)
        for k, w in s2.env.items():
            if k not in env:
                env[k] = w
        return State(env, pc if pc is not None else or_(s1.pc, s2.pc))

    # ------------------------------------------------------------ statements
    def block(self, n):
        for c in n.ch:
            if not self.st.alive:
                return
            self.stmt(c)

    def stmt(self, n):
        k = n.kind
        if k == 'CompoundStmt':
            self.block(n)
        elif k == 'DeclStmt':
            for d in n.ch:
                if d.kind == 'VarDecl':
                    self.vardecl(d)
        elif k == 'IfStmt':
            self.ifstmt(n)
        elif k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            self.loop(n)
        elif k == 'ReturnStmt':
            v = self.expr(n.ch[0]) if n.ch else ZERO
            if len(self.frames) == 1:
                self.emit('return', n, val=v)
            self.frames[-1].returns.append((self.st, v, n))
            self.exits += 1
            self.st = State(self.st.env, self.st.pc, False)
        elif k == 'BreakStmt':
            self.frames[-1].breaks[-1].append(self.st)
            self.exits += 1
            self.st = State(self.st.env, self.st.pc, False)
        elif k == 'ContinueStmt':
            self.frames[-1].conts[-1].append(self.st)
            self.exits += 1
            self.st = State(self.st.env, self.st.pc, False)
        elif k == 'SwitchStmt':
            self.switch(n)
        elif k in ('NullStmt', '<null>'):
            pass
        elif k.startswith('OMP'):
            self.ompstmt(n)
        elif k in ('CapturedStmt',):
            self.stmt(n.ch[0])
        elif k == 'CapturedDecl':
            for c in n.ch:
                if c.kind not in ('ImplicitParamDecl',) and not c.kind.endswith('Attr') and \
                        not c.kind.endswith('Decl'):
                    self.stmt(c)
        elif k == 'LabelStmt':
            for c in n.ch:
                self.stmt(c)
        elif k == 'GotoStmt':
            self.notes.append('goto at %s:%s' % (n.file, n.line))
        elif k.endswith('Attr'):
            pass
        else:
            self.expr(n)

    def vardecl(self, d):
        key = (self.frames[-1].id, d.id)
        self.decls[key] = d
        t = d.type or ''
        init = [c for c in d.ch if not c.kind.endswith('Attr')]
        if d.cast == 'static':
            self.emit('static', d, extra=d.name)
        if t.endswith(']') or t in self.P.records:
            base = obj('var', d.name, self.frames[-1].id, *[l.sym for l in self.loops])
            self.st.env[key] = ptr(base, (('i', ZERO),)) if t.endswith(']') else ptr(base, ())
            self.types[base] = 'array' if t.endswith(']') else 'struct'
            if init and init[0].kind == 'InitListExpr' and t.endswith(']'):
                for i, c in enumerate(init[0].ch):
                    self.store((base, (('i', num(i)),)), self.expr(c), c)
                self.types[base] = 'zeroinit'
            elif init and t.endswith(']'):
                v = self.expr(init[0])
            return
        if init:
            self.st.env[key] = self.expr(init[0])
        else:
            self.st.env[key] = sym('undef(%s)#%d' % (d.name, self.frames[-1].id),
                                   is_int_type(t))
        self.varwrite(key, d)

    def ifstmt(self, n):
        ch = n.ch
        c = truth(self.expr(ch[0]))
        self.branch(c, (lambda: self.stmt(ch[1])),
                    (lambda: self.stmt(ch[2])) if len(ch) > 2 else None)

    def branch(self, c, th, el):
        s0 = self.st
        c = self.simp(c)
        if not s0.alive:
            return
        ex = self.exits
        s1 = s0.fork(c)
        s2 = s0.fork(not_(c))
        if s1.alive:
            self.st = s1
            th()
            s1 = self.st
        if s2.alive and el is not None:
            self.st = s2
            el()
            s2 = self.st
        if not s1.alive and not s2.alive:
            self.st = State(s2.env, s2.pc, False)
        else:
            self.st = self.merge(s1, s2, c, s0.pc if self.exits == ex else None)

    def simp(self, c):
        """resolve a condition under the current path and loop constraints"""
        if c is TRUE or c is FALSE:
            return c
        g = self.ctx()
        if and_(g, c) is FALSE:
            return FALSE
        if and_(g, not_(c)) is FALSE:
            return TRUE
        return c

    def ctx(self):
        return and_(self.st.pc, *[constraints(l) for l in self.loops if l.known])

    def switch(self, n):
        v = self.expr(n.ch[0])
        body = n.ch[1]
        self.frames[-1].breaks.append([])
        s0 = self.st
        ran = FALSE
        default = None
        flat = []

        def flatten(x):
            if x.kind == 'CaseStmt':
                flat.append(('case', x.ch[0]))
                for c in x.ch[1:]:
                    flatten(c)
            elif x.kind == 'DefaultStmt':
                flat.append(('default', None))
                for c in x.ch:
                    flatten(c)
            elif x.kind == 'CompoundStmt' and x is body:
                for c in x.ch:
                    flatten(c)
            else:
                flat.append(('stmt', x))
        flatten(body)
        conds = []
        for k, x in flat:
            if k == 'case':
                conds.append(eq(v, self.expr(x)))
        notany = and_(*[not_(c) for c in conds])
        live = None    # fallthrough state
        ci = 0
        for k, x in flat:
            if k in ('case', 'default'):
                c = conds[ci] if k == 'case' else notany
                if k == 'case':
                    ci += 1
                s = s0.fork(c)
                if live is not None and live.alive:
                    live = self.merge(s, live, c) if s.alive else live
                else:
                    live = s
            else:
                if live is not None and live.alive:
                    self.st = live
                    self.stmt(x)
                    live = self.st
        brk = self.frames[-1].breaks.pop()
        states = list(brk)
        if live is not None and live.alive:
            states.append(live)
        if not any(k == 'default' for k, _ in flat):
            s = s0.fork(notany)
            if s.alive:
                states.append(s)
        self.join(states, s0)

    def join(self, states, s0):
        states = [s for s in states if s.alive]
        if not states:
            self.st = State(s0.env, FALSE, False)
            return
        st = states[0]
        for s in states[1:]:
            st = self.merge(st, s, self.relcond(st.pc, s.pc))
        self.st = st

    # ------------------------------------------------------------ OpenMP
    def ompstmt(self, n):
        k = n.kind
        body = [c for c in n.ch if c.kind in ('CapturedStmt', 'CompoundStmt', 'ForStmt')
                or c.kind.endswith('Stmt') or c.kind.endswith('Operator') or
                c.kind == 'CallExpr']
        if k == 'OMPParallelDirective':
            self.ompn += 1
            self.omp.append(('parallel', self.ompn, n.line, n.file or self.frames[-1].func.file))
        elif k in ('OMPForDirective', 'OMPParallelForDirective'):
            self.ompn += 1
            if k == 'OMPParallelForDirective':
                self.omp.append(('parallel', self.ompn, n.line,
                                 n.file or self.frames[-1].func.file))
            self.omp.append(('for', self.ompn, n.line, n.file or self.frames[-1].func.file))
        elif k == 'OMPCriticalDirective':
            self.omp.append(('critical', 0, n.line, ''))
        elif k == 'OMPAtomicDirective':
            self.omp.append(('atomic', 0, n.line, ''))
        elif k == 'OMPSingleDirective' or k == 'OMPMasterDirective':
            self.omp.append(('single', 0, n.line, ''))
        else:
            self.omp.append((k, 0, n.line, ''))
        n0 = len(self.omp)
        try:
            for c in body[:1]:
                self.stmt(self.uncap(c))
        finally:
            del self.omp[n0 - 1:]
            if k == 'OMPParallelForDirective':
                del self.omp[n0 - 2:]

    def uncap(self, c):
        while c.kind in ('CapturedStmt', 'CapturedDecl'):
            nx = None
            for x in c.ch:
                if x.kind in ('ImplicitParamDecl',) or x.kind.endswith('Attr'):
                    continue
                if x.kind == 'CapturedDecl' or not x.kind.endswith('Decl'):
                    nx = x
                    break
            if nx is None:
                return c
            c = nx
        return c

    # ------------------------------------------------------------ loops
    def assigned(self, n, acc=None):
        """decl ids of the scalars assigned in subtree n"""
        if acc is None:
            acc = set()
        st = [n]
        while st:
            x = st.pop()
            if x.kind in ('BinaryOperator',) and x.op == '=' or x.kind == 'CompoundAssignOperator':
                t = self.strip(x.ch[0])
                if t.kind == 'DeclRefExpr':
                    acc.add(t.refid)
            elif x.kind == 'UnaryOperator' and x.op in ('++', '--', '&'):
                t = self.strip(x.ch[0])
                if t.kind == 'DeclRefExpr':
                    acc.add(t.refid)
            st.extend(x.ch)
        return acc

    def declared(self, n):
        return {x.id for x in n.walk() if x.kind == 'VarDecl'}

    @staticmethod
    def strip(n):
        while n.kind in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and n.ch:
            n = n.ch[-1]
        return n

    def loop(self, n):
        fr = self.frames[-1]
        if n.kind == 'ForStmt':
            init, _, cond, inc, body = n.ch
            if init.kind != '<null>':
                self.stmt(init)
        elif n.kind == 'WhileStmt':
            cond, body = n.ch[0], n.ch[-1]
            inc = None
        else:
            body, cond = n.ch[0], n.ch[1]
            inc = None
        if not self.st.alive:
            return
        parts = [x for x in (cond, inc, body) if x is not None and x.kind != '<null>']
        asg = set()
        for x in parts:
            self.assigned(x, asg)
        dec = set()
        for x in parts:
            dec |= self.declared(x)
        keys = [k for k in self.st.env if k[0] == fr.id and k[1] in asg and k[1] not in dec
                and self.st.env[k].op != 'ptr' or (k[0] == fr.id and k[1] in asg and
                                                   k[1] not in dec)]
        omp_for = self.omp and self.omp[-1][0] == 'for' and not any(
            l.omp == self.omp[-1][1] for l in self.loops)
        # variables of outer frames modified through pointers are handled as memory
        s0 = self.st
        # try unrolling: constant trip count
        if self.try_unroll(n, cond, inc, body, keys, s0):
            return
        # ---- pass A
        while True:
            L = Loop(ZERO, ZERO, n.file or fr.func.file, n.line)
            phi = {}
            env = dict(s0.env)
            for k in keys:
                d = self.decls.get(k)
                isint = is_int_type(d.type) if d is not None else False
                p = sym('phi(%s)#%d' % (d.name if d is not None else '?', L.id), isint)
                phi[k] = p
                if s0.env[k].op == 'ptr' and not (d is not None and is_int_type(d.type)):
                    # pointer carried around the loop
                    p = ptr(obj('phi', d.name if d else '?', L.id), (('i', ZERO),))
                    phi[k] = p
                env[k] = p
            saved = self.save()
            self.loops.append(L)
            L.known = False
            self.st = State(env, s0.pc)
            self.quiet += 1
            condA = TRUE
            try:
                fr.breaks.append([])
                fr.conts.append([])
                nret = len(fr.returns)
                if n.kind != 'DoStmt' and cond is not None and cond.kind != '<null>':
                    condA = truth(self.expr(cond))
                self.stmt(body)
                stt = [s for s in fr.conts[-1] if s.alive]
                if self.st.alive:
                    stt.append(self.st)
                if stt:
                    self.join(stt, self.st)
                    if inc is not None and inc.kind != '<null>':
                        self.expr(inc)
                    if n.kind == 'DoStmt':
                        condA = truth(self.expr(cond))
                envA = self.st.env
                brkA = fr.breaks[-1]
                hasbreak = bool(brkA) or len(fr.returns) > nret
            finally:
                fr.breaks.pop()
                fr.conts.pop()
                del fr.returns[nret:]
                self.quiet -= 1
            # scalars of enclosing frames that the body changes through pointers
            more = [k for k, v in envA.items() if k in s0.env and k not in keys and v is not s0.env[k]]
            if not more:
                break
            keys += more
            self.loops.pop()
            self.restore(saved)
        logA = list(self.log[saved[0]:])
        oldsym = L.sym
        self.loops.pop()
        patterns = [(e.base, e.steps, e.loops[len(self.loops) + 1:], e.kind, e.pc) for e in logA]
        self.restore(saved)
        # classify
        ind = {}
        for k in keys:
            d = self.delta(envA.get(k), phi[k])
            if d is not None and d.op == 'num' and d.args[0] != 0 and not isbool(d):
                ind[k] = d.args[0]
        # scalars that change by the same (not constant) amount every iteration
        gind = {}
        for k in keys:
            d = self.delta(envA.get(k), phi[k])
            if k not in ind and d is not None and d.isint and self.fixed(d, L, oldsym, phi):
                gind[k] = d
        main = None
        rest_guard = TRUE
        for lit in sorted(conj(condA)):
            r = self.range_of(lit, ind, phi)
            if r is not None and main is None:
                main = r
            else:
                rest_guard = and_(rest_guard, lit)
        if main is None and condA is not TRUE:
            r = self.range_of(condA, ind, phi)
            if r is not None:
                main, rest_guard = r, TRUE
        name = ''
        if main is not None:
            k0, step, bound, incl, sense = main
            d = self.decls.get(k0)
            name = d.name if d is not None else ''
            i0 = s0.env[k0]
            L.sym = sym('%s#%d' % (name or 'it', L.id), True)
            # bound may depend on phi of other variables -> then not invariant
            bad = any(p in free(bound) for p in phi.values() if p.op == 'sym')
            if bad:
                main = None
            elif step == 1 and sense == '<':
                L.lo, L.hi = i0, (add(bound, ONE) if incl else bound)
                val = L.sym
            elif step == -1 and sense == '>':
                L.lo, L.hi = (bound if incl else add(bound, ONE)), add(i0, ONE)
                L.desc = True
                val = L.sym
            elif step > 1 and sense == '<':
                hi = (add(bound, ONE) if incl else bound)
                cnt = idiv(add(sub(hi, i0), num(step - 1)), num(step))
                L.lo, L.hi = ZERO, cnt
                val = add(i0, mul(num(step), L.sym))
            else:
                main = None
        if main is None:
            L.sym = sym('it#%d' % L.id, True)
            L.lo, L.hi = ZERO, sym('niter#%d' % L.id, True)
            L.early = True
            val = None
        L.known = True
        if condA is not TRUE and rest_guard is not TRUE and main is not None:
            L.early = True
        L.soft = hasbreak and main is not None and self.lasting(brkA, logA, keys, phi, ind, main, s0)
        if hasbreak and not L.soft:
            L.early = True
        if omp_for:
            L.omp = self.omp[-1][1]
        L.stores = patterns
        L.pc = s0.pc
        if self.quiet:
            self.quiet_exit(L, oldsym, logA, keys, phi, ind, main, val, s0, envA, hasbreak, gind)
            return
        # ---- pass B
        again = self.save()
        while True:
            r = self.passB(n, cond, inc, body, L, keys, phi, ind, gind, main, val, s0, rest_guard)
            if r is not None:
                break
            # the amount is not the same every iteration after all
            self.restore(again)
            gind = {}

    def fixed(self, d, L, oldsym, phi):
        """does not change from one iteration of L to the next (loads are checked afterwards)"""
        if d.op in ('ptr', 'str', 'num'):
            return False
        own = set(l.sym for l in self.loops)
        for x in subterms(d):
            if x.op == 'sym' and (x is L.sym or x is oldsym or x in phi.values() or
                                  ('#' in x.args[0] and x not in own)):
                return False
            if x.op == 'load' and x.args[2]:
                return False
            if x.op in ('sum', 'minr', 'ite'):
                return False
        return True

    def passB(self, n, cond, inc, body, L, keys, phi, ind, gind, main, val, s0, rest_guard):
        fr = self.frames[-1]
        env = dict(s0.env)
        for k in keys:
            if main is not None and k == main[0]:
                env[k] = val
            elif k in ind and main is not None and s0.env[k].op != 'ptr':
                n_it = sub(L.sym, L.lo) if not L.desc else sub(sub(L.hi, ONE), L.sym)
                env[k] = add(s0.env[k], mul(num(ind[k]), n_it))
            elif k in gind and main is not None and s0.env[k].op != 'ptr':
                n_it = sub(L.sym, L.lo) if not L.desc else sub(sub(L.hi, ONE), L.sym)
                env[k] = add(s0.env[k], mul(gind[k], n_it))
            elif k in ind and main is None and s0.env[k].op != 'ptr':
                env[k] = add(s0.env[k], mul(num(ind[k]), L.sym))
            else:
                env[k] = phi[k]
        start = {k: env[k] for k in gind}
        if main is not None and cval(L.lo) is not None and cval(L.hi) is not None and \
                cval(L.lo) >= cval(L.hi):
            return True     # no iteration
        self.loops.append(L)
        self.st = State(env, s0.pc)
        fr.breaks.append([])
        fr.conts.append([])
        nret = len(fr.returns)
        try:
            if n.kind != 'DoStmt' and cond is not None and cond.kind != '<null>':
                cB = truth(self.expr(cond))
                cB = self.simp(cB) if main is not None else cB
                if cB is not TRUE:
                    self.st = self.st.fork(cB)
            if self.st.alive:
                self.stmt(body)
            stt = [s for s in fr.conts[-1] if s.alive]
            if self.st.alive:
                stt.append(self.st)
            if L.soft:
                # the iterations after a break would do nothing
                stt += [s for s in fr.breaks[-1] if s.alive]
                fr.breaks[-1] = []
            if stt:
                self.join(stt, self.st)
                if inc is not None and inc.kind != '<null>':
                    self.expr(inc)
            envB = self.st.env
            brk = fr.breaks[-1]
        finally:
            fr.breaks.pop()
            fr.conts.pop()
        self.loops.pop()
        if main is not None:
            for k in gind:
                if self.delta(envB.get(k), start[k]) is not gind[k]:
                    del fr.returns[nret:]
                    return None
        # ---- after the loop
        out = dict(s0.env)
        for k in keys:
            v0 = s0.env[k]
            vB = envB.get(k)
            if L.soft and (k == main[0] or k in ind or k in gind):
                out[k] = sym('after(%s)#%d' % (self.decls[k].name if k in self.decls else '?', L.id), True)
                continue
            if main is not None and k == main[0] and not L.early:
                if L.desc:
                    out[k] = sub(L.lo, ONE)
                elif main[1] == 1:
                    out[k] = self.maxlo(L, v0)
                else:
                    out[k] = add(v0, mul(num(main[1]), L.hi))
                continue
            if k in ind and main is not None and not L.early:
                out[k] = add(v0, mul(num(ind[k]), sub(L.hi, L.lo)))
                continue
            if k in gind and main is not None and not L.early:
                out[k] = add(v0, mul(gind[k], sub(L.hi, L.lo)))
                continue
            p = phi[k]
            if (vB is p or vB is None) and not any(b.env.get(k) is not vB for b in brk):
                out[k] = v0
                continue
            d = self.delta(vB, p)
            if d is not None and not L.early and p not in free(d):
                if v0.op == 'ptr' or d.op == 'ptr':
                    out[k] = self.opaque_term('after', True)
                else:
                    out[k] = add(v0, sum_(L, TRUE, d))
                continue
            x = self.least(vB, p) if v0.op not in ('ptr', 'str') and not brk and not L.early else None
            if x is not None:
                out[k] = minmax('min', v0, T.min_(L, TRUE, x))
                continue
            x = self.least(vB, p, True) if v0.op not in ('ptr', 'str') and not brk and not L.early else None
            if x is not None:
                out[k] = minmax('max', v0, neg(T.min_(L, TRUE, x)))
                continue
            dl = self.decls.get(k)
            isint = is_int_type(dl.type) if dl is not None else False
            if p not in free(vB) and not brk and not L.early and vB.op != 'ptr' and \
                    not isint is None:
                last = subst(vB, {L.sym: (sub(L.hi, ONE) if not L.desc else L.lo)})
                out[k] = ite(lt(L.lo, L.hi), last, v0)
                continue
            fl = self.latch(L, main, rest_guard, vB, p, brk, len(fr.returns) > nret, phi, v0) or \
                self.flag(L, main, rest_guard, vB, p, brk, len(fr.returns) > nret, phi, s0, k)
            if fl is not None and v0.op != 'ptr':
                out[k] = ite(eq(fl[0], ZERO), v0, fl[1])
                continue
            out[k] = sym('after(%s)#%d' % (dl.name if dl is not None else '?', L.id), isint)
            if dl is not None and is_ptr_type(dl.type):
                out[k] = ptr(obj('after', dl.name, L.id), (('i', ZERO),))
        # scalars of enclosing frames changed through pointers
        for k, v in envB.items():
            if k not in out:
                continue
            if k not in keys and v is not s0.env.get(k) and k in s0.env:
                dl = self.decls.get(k)
                isint = is_int_type(dl.type) if dl is not None else False
                out[k] = sym('after(%s)#%d' % (dl.name if dl is not None else '?', L.id), isint)
        self.st = State(out, s0.pc)
        # returns from inside a loop: value is loop dependent
        for i in range(nret, len(fr.returns)):
            s, v, nd = fr.returns[i]
            s.pc = and_(s0.pc, fn('inloop', (num(L.id), num(i)), True)) \
                if L.sym in free(s.pc) else s.pc
            fr.returns[i] = (s, v, nd)
        return True

    def latch(self, L, main, rest_guard, vB, p, brk, rets, phi, v0):
        """a scalar with a known first value that some iteration changes to another known value, and
        that no iteration changes again"""
        if main is None or rest_guard is not TRUE or rets or brk or L.early or cval(v0) is None:
            return None
        new = set()

        def leaves(v):
            if v.op == 'ite':
                leaves(v.args[1])
                leaves(v.args[2])
            elif v is not p:
                new.add(v)
        leaves(vB)
        if len(new) != 1:
            return None
        c = new.pop()
        if cval(c) is None or c is v0 or subst(vB, {p: c}) is not c:
            return None
        g = subst(vB, {p: v0})
        if set(free(g)) & (set(phi.values()) - {L.sym}):
            return None
        g = ite(eq(g, v0), ZERO, ONE)
        return sum_(L, TRUE, g), c

    def flag(self, L, main, rest_guard, vB, p, brk, rets, phi, s0, k):
        """a scalar that some iteration sets to one value: (number of such iterations, value)"""
        if main is None or rest_guard is not TRUE or rets:
            return None
        inv = set(phi.values()) | {L.sym}
        conds, vals = [], set()

        def walk(v, c):
            if v is p:
                return True
            if v.op == 'ite' and not (set(free(v.args[0])) & inv - {L.sym}):
                return walk(v.args[1], and_(c, v.args[0])) and \
                    walk(v.args[2], and_(c, not_(v.args[0])))
            if set(free(v)) & inv:
                return False
            conds.append(c)
            vals.add(v)
            return True
        if not walk(vB, TRUE):
            return None
        pre = conj(s0.pc)
        for b in brk:
            c = and_(*[x for x in conj(b.pc) if x not in pre])
            if set(free(c)) & (inv - {L.sym}):
                return None
            if not walk(b.env.get(k), c):
                return None
        if len(vals) != 1 or any(c is TRUE for c in conds):
            return None
        return sum_(L, TRUE, ite(or_(*conds), ONE, ZERO)), vals.pop()

    def quiet_exit(self, L, oldsym, logA, keys, phi, ind, main, val, s0, envA, hasbreak, gind):
        """inside the first pass over an enclosing loop: only the store patterns and the shape
        of the changes of scalars are needed"""
        m = {oldsym: L.sym}
        for k in keys:
            if phi[k].op != 'sym':
                continue
            if main is not None and k == main[0]:
                m[phi[k]] = val
            elif k in ind and main is not None and s0.env[k].op != 'ptr':
                n_it = sub(L.sym, L.lo) if not L.desc else sub(sub(L.hi, ONE), L.sym)
                m[phi[k]] = add(s0.env[k], mul(num(ind[k]), n_it))
            elif k in gind and main is not None and s0.env[k].op != 'ptr':
                n_it = sub(L.sym, L.lo) if not L.desc else sub(sub(L.hi, ONE), L.sym)
                m[phi[k]] = add(s0.env[k], mul(gind[k], n_it))
        for e in logA:
            x = Entry()
            x.base, x.steps = subst(e.base, m), T.steps_subst(e.steps, m)
            x.val = subst(e.val, m) if isinstance(e.val, Term) else e.val
            x.pc, x.loops, x.kind, x.red, x.eff, x.seq = \
                subst(e.pc, m), e.loops, e.kind, e.red, e.eff, e.seq
            self.addentry(x)
        out = dict(s0.env)
        for k in keys:
            v0, vA, p = s0.env[k], envA.get(k), phi[k]
            if vA is p or vA is None:
                continue
            dl = self.decls.get(k)
            isint = is_int_type(dl.type) if dl is not None else False
            nm = dl.name if dl is not None else '?'
            d = self.delta(vA, p)
            if L.soft and (k in ind or k in gind):
                out[k] = sym('after(%s)#%d' % (nm, L.id), isint)
            elif k in ind and main is not None and not L.early and v0.op != 'ptr':
                if k == main[0]:
                    out[k] = L.hi if main[1] == 1 else (
                        sub(L.lo, ONE) if L.desc else add(v0, mul(num(main[1]), L.hi)))
                else:
                    out[k] = add(v0, mul(num(ind[k]), sub(L.hi, L.lo)))
            elif k in gind and main is not None and not L.early and v0.op != 'ptr':
                out[k] = add(v0, mul(gind[k], sub(L.hi, L.lo)))
            elif d is not None and v0.op not in ('ptr', 'str') and d.op not in ('ptr', 'str'):
                out[k] = add(v0, sym('qsum(%s)#%d' % (nm, L.id), isint and d.isint))
            elif dl is not None and is_ptr_type(dl.type):
                out[k] = ptr(obj('after', nm, L.id), (('i', ZERO),))
            else:
                out[k] = sym('after(%s)#%d' % (nm, L.id), isint)
        for k, v in envA.items():
            if k in out and k not in keys and v is not s0.env.get(k) and k in s0.env:
                dl = self.decls.get(k)
                out[k] = sym('after(%s)#%d' % (dl.name if dl is not None else '?', L.id),
                             is_int_type(dl.type) if dl is not None else False)
        self.st = State(out, s0.pc)

    def maxlo(self, L, v0):
        if cval(L.hi) is not None and cval(L.lo) is not None:
            return L.hi if cval(L.hi) > cval(L.lo) else L.lo
        return minmax('max', L.lo, L.hi) if implies(self.ctx(), le(L.lo, L.hi)) is False \
            else L.hi

    def try_unroll(self, n, cond, inc, body, keys, s0):
        """constant trip count: evaluate the body once per iteration"""
        if cond is None or cond.kind == '<null>' or n.kind == 'DoStmt':
            return False
        fr = self.frames[-1]
        # cheap pre-test: a constant comparison now, and after one dry increment
        saved = self.save()
        self.quiet += 1
        st = State(dict(s0.env), s0.pc)
        self.st = st
        try:
            c = truth(self.expr(cond))
        finally:
            self.quiet -= 1
            self.restore(saved)
            self.st = s0
        if c is FALSE:
            return True
        if c is not TRUE:
            return False
        # simulate the induction alone
        if inc is None or inc.kind == '<null>':
            # while (cond): the statements of the body that change what cond reads
            names = set()

            def refs(x):
                if x.kind == 'DeclRefExpr':
                    names.add(x.refid)
                for y in x.ch:
                    refs(y)
            refs(cond)
            step = [x for x in (body.ch if body.kind == 'CompoundStmt' else [body])
                    if self.assigned(x) & names]
            if not step or any(x.kind not in ('UnaryOperator', 'BinaryOperator',
                                              'CompoundAssignOperator') or
                               not self.assigned(x) <= names for x in step):
                return self.try_walk(n, cond, body, s0)
            inc = None
        else:
            step = [inc]
            t = self.strip(inc.ch[0]) if inc.ch else None
            if t is None or t.kind != 'DeclRefExpr':
                return False
            if t.refid in self.assigned(body):
                return False
        cnt = 0
        saved = self.save()
        self.quiet += 1
        self.st = State(dict(s0.env), s0.pc)
        ok = False
        try:
            while cnt <= self.unroll:
                c = truth(self.expr(cond))
                if c is FALSE:
                    ok = True
                    break
                if c is not TRUE:
                    break
                for x in step:
                    self.expr(x)
                cnt += 1
        finally:
            self.quiet -= 1
            self.restore(saved)
            self.st = s0
        if not ok or cnt > self.unroll:
            return False
        brk = []
        for _ in range(cnt):
            fr.breaks.append([])
            fr.conts.append([])
            self.stmt(body)
            stt = [s for s in fr.conts.pop() if s.alive]
            brk += fr.breaks.pop()
            if self.st.alive:
                stt.append(self.st)
            if not stt:
                self.st = State(self.st.env, FALSE, False)
                break
            self.join(stt, self.st)
            if inc is not None:
                self.expr(inc)
        if brk:
            self.join(([self.st] if self.st.alive else []) + brk, self.st)
        return True

    def try_walk(self, n, cond, body, s0):
        """a search loop without calls whose condition is constant at every turn"""
        fr = self.frames[-1]
        if any(x.kind in ('CallExpr', 'ForStmt', 'WhileStmt', 'DoStmt') for x in body.walk()):
            return False
        saved = self.save()
        nret, nb, nc = len(fr.returns), len(fr.breaks), len(fr.conts)
        self.st = State(dict(s0.env), s0.pc)
        brk, ok = [], False
        for _ in range(self.unroll):
            c = truth(self.expr(cond))
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
            fr.breaks.append([])
            fr.conts.append([])
            self.stmt(body)
            stt = [s for s in fr.conts.pop() if s.alive]
            brk += fr.breaks.pop()
            if self.st.alive:
                stt.append(self.st)
            if not stt:
                self.st = State(self.st.env, FALSE, False)
                ok = True
                break
            self.join(stt, self.st)
        if not ok:
            del fr.returns[nret:]
            self.restore(saved)
            self.st = s0
            return False
        if brk:
            self.join(([self.st] if self.st.alive else []) + brk, self.st)
        return True

    def delta(self, v, p):
        """v = p + delta with delta free of p (gated increments included)"""
        if v is None:
            return None
        if v is p:
            return ZERO
        if v.op == 'ite':
            a = self.delta(v.args[1], p)
            b = self.delta(v.args[2], p)
            if a is None or b is None or p in free(v.args[0]):
                return None
            return ite(v.args[0], a, b)
        if v.op == 'ptr' and p.op == 'ptr':
            if v.args[0] is p.args[0] and v.args[1] and p.args[1] and \
                    v.args[1][:-1] == p.args[1][:-1]:
                return sub(v.args[1][-1][1], p.args[1][-1][1])
            return None
        if v.op in ('ptr', 'str') or p.op in ('ptr', 'str'):
            return None
        d = sub(v, p)
        if p in free(d):
            return None
        return d

    def least(self, v, p, big=False):
        """v = min(p, x) with x free of p (big: v = max(p, -x))"""
        if v is p:
            return T.INF
        if v.op == ('max' if big else 'min') and p in v.args and \
                not any(p in free(a) for a in v.args if a is not p):
            x = T.INF
            for a in v.args:
                if a is not p:
                    a = neg(a) if big else a
                    x = a if x is T.INF else minmax('min', x, a)
            return x
        if v.op != 'ite':
            return None
        c, a, b = v.args
        for c, a, b in ((c, a, b), (not_(c), b, a)):
            if p not in free(c):
                x, y = self.least(a, p, big), self.least(b, p, big)
                return None if x is None or y is None else ite(c, x, y)
            # if (g && a < p) p = a
            if b is not p or p in free(a) or a.op in ('ptr', 'str'):
                continue
            lits = (lt(p, a), le(p, a)) if big else (lt(a, p), le(a, p))
            g = [l for l in conj(c) if l not in lits]
            if len(g) == len(conj(c)) or any(p in free(l) for l in g):
                continue
            return ite(and_(*g), neg(a) if big else a, T.INF)
        return None

    def lasting(self, brk, log, keys, phi, ind, main, s0):
        """breaks before any change in their iteration, for a reason that would hold in every
        later iteration: they only skip iterations that would do nothing"""
        p = phi[main[0]]
        pre = conj(s0.pc)
        vary = set(phi.values())
        for b in brk:
            if any(b.env.get(k) is not phi[k] for k in keys) or \
                    any(and_(e.pc, b.pc) is not FALSE for e in log):
                return False
            for l in conj(b.pc):
                if l in pre or not (free(l) & vary):
                    continue
                neg = l.op == 'not'
                x = l.args[0] if neg else l
                if x.op != 'lt0' or free(x) & vary != {p}:
                    return False
                pl = dict(T._poly(x.args[0]))
                k = pl.pop(((p, 1),), None)
                if k is None or any(p in free(a) for m in pl for a, e in m) or \
                        (k * main[1] > 0) != neg:
                    return False
        return True

    def range_of(self, lit, ind, phi):
        """literal -> (key, step, bound, inclusive, '<' or '>')"""
        for k, step in ind.items():
            p = phi[k]
            if p.op != 'sym' or p not in free(lit):
                continue
            # lt0: a*p + r < 0
            l, negd = lit, False
            if l.op == 'not' and l.args[0].op == 'lt0':
                l, negd = l.args[0], True
            if l.op == 'lt0':
                pl = T._poly(l.args[0])
                c = pl.pop(((p, 1),), None)
                if c is None:
                    continue
                r = T._frompoly(pl)
                if p in free(r):
                    continue
                b = mul(num(Fraction(-1) / c), r)    # p < b (c>0) or p > b (c<0)
                if abs(c) != 1 and p.isint:
                    # p*c + r < 0
                    if not negd and c > 0:
                        # p < -r/c  ; integer division when r int constant multiple
                        return None if not b.isint else (k, step, b, False, '<')
                    return None
                if not negd:
                    return (k, step, b, False, '<' if c > 0 else '>')
                return (k, step, b, True, '>' if c > 0 else '<')
            if l.op == 'not' and l.args[0].op == 'eq0' or (l.op == 'eq0' and False):
                pl = T._poly(l.args[0].args[0])
                c = pl.pop(((p, 1),), None)
                if c is None or abs(c) != 1:
                    continue
                r = T._frompoly(pl)
                if p in free(r):
                    continue
                b = mul(num(Fraction(-1) / c), r)
                if step in (1, -1):
                    return (k, step, b, False, '<' if step > 0 else '>')
        return None

    keep_undef = False
    quiet = 0
    exits = 0      # states ended by return/break/continue/error
    kills = 0      # states ended by an error exit

    def save(self):
        return (len(self.log), len(self.effects), self.seq, self.ompn)

    def restore(self, s):
        for e in self.log[s[0]:]:
            L = self.bybase[self.bkey(e.base)]
            L.remove(e)
        del self.log[s[0]:]
        del self.effects[s[1]:]
        self.seq = s[2]
        self.ompn = s[3]

    # ------------------------------------------------------------ memory
    def bkey(self, base):
        if base.op == 'obj':
            if base.args[0] in ('alloc', 'var', 'res', 'hdu'):
                return (base.args[0], base.args[1], base.args[2] if len(base.args) > 2 and
                        not isinstance(base.args[2], Term) else None)
            return base if base.args[0] not in ('deref',) else self.derefkey(base)
        return base

    def derefkey(self, base):
        l = base.args[1]
        return ('deref', self.bkey(l.args[0]), tuple(s[1] if s[0] == 'f' else '[]'
                                                     for s in l.args[1]))

    def unify(self, a, b, vars_, sub_):
        """match pattern term a (with loop symbols vars_) against b; returns
        True (equal under sub_), False (different), None (unknown)"""
        a = subst(a, sub_) if sub_ else a
        if a is b:
            return True
        if a.op == 'ptr' and b.op == 'ptr':
            return self.unify_loc(a.args[0], a.args[1], b.args[0], b.args[1], vars_, sub_)
        if a.op == 'obj' and b.op == 'obj':
            if len(a.args) != len(b.args):
                return None
            res = True
            for x, y in zip(a.args, b.args):
                if isinstance(x, Term) and isinstance(y, Term):
                    r = self.unify(x, y, vars_, sub_)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                elif x != y:
                    return False
            return res
        if a.op == 'load' and b.op == 'load':
            if a.args[2] == b.args[2]:
                r = self.unify_loc(a.args[0], a.args[1], b.args[0], b.args[1], vars_, sub_)
                if r is True:
                    return True
            return None
        if a.op in ('ptr', 'obj', 'str') or b.op in ('ptr', 'obj', 'str'):
            return None
        fv = [v for v in vars_ if v in free(a) and v not in sub_]
        if not fv:
            d = sub(a, b)
            v = cval(d)
            if v is not None:
                return v == 0
            if nosol(T._poly(d)):
                return False
            return self.ctx_ne(d)
        # solve linear a(v) = b for one variable with unit coefficient
        pl = T._poly(sub(a, b))
        if nosol(pl):
            return False
        for v in sorted(fv):
            c = pl.get(((v, 1),))
            if c is not None and abs(c) == 1 and \
                    not any(v in free(x) for m in pl for x, k in m if m != ((v, 1),)):
                r = dict(pl)
                del r[((v, 1),)]
                sol = T._frompoly({m: -cc / c for m, cc in r.items()})
                others = [w for w in fv if w is not v and w in free(sol)]
                if not others:
                    sub_[v] = sol
                    return True
        # mixed radix: n*v + w with both free; match coefficient-wise against b
        r = self.radix(a, b, fv, sub_)
        if r:
            return True
        return None

    def divmod_(self, b, K, g):
        """(q, r) with b = K*q + r and 0 <= r < K (b >= 0), simplified where possible"""
        (m0, c0), = T._poly(K).items() if len(T._poly(K)) == 1 else ((None, None),)
        if m0 is not None:
            q, r = {}, {}
            for m, c in T._poly(b).items():
                d = dict(m)
                ok = (Fraction(c) / c0).denominator == 1
                for x, k in m0:
                    if d.get(x, 0) < k:
                        ok = False
                        break
                    d[x] -= k
                if ok:
                    q[tuple(sorted(((x, k) for x, k in d.items() if k),
                                   key=lambda z: z[0].uid))] = Fraction(c) / c0
                else:
                    r[m] = c
            q, r = T._frompoly(q), T._frompoly(r)
            if T.implies(g, le(ZERO, r)) and T.implies(g, lt(r, K)):
                return q, r
        else:
            pk, pb = T._poly(K), T._poly(b)
            # b = K*q + r for a symbolic sum K: try q = one quotient of the leading monomials
            for lead in pk:
                q = {}
                for m, c in pb.items():
                    d = dict(m)
                    ok = True
                    for x, k in lead:
                        if d.get(x, 0) < k:
                            ok = False
                            break
                        d[x] -= k
                    if ok and lead:
                        q[tuple(sorted(((x, k) for x, k in d.items() if k),
                                       key=lambda z: z[0].uid))] = Fraction(c) / pk[lead]
                q = T._frompoly(q)
                r = sub(b, mul(K, q))
                if T.implies(g, le(ZERO, r)) and T.implies(g, lt(r, K)):
                    return q, r
        return T.idiv(b, K), T.mod(b, K)

    def radix(self, a, b, fv, sub_):
        """Solve K1*v1 + ... + w = b for loop indices with 0 <= w < K1, ... (the
        only solution).  True: sub_ filled, None: cannot tell."""
        pa = T._poly(a)
        coef, rest = {}, {}
        for m, c in pa.items():
            vs = [(x, k) for x, k in m if x in fv]
            if any(x not in fv and free(x) & set(fv) for x, k in m):
                return None     # inside an uninterpreted value
            if not vs:
                rest[m] = c
                continue
            if len(vs) != 1 or vs[0][1] != 1:
                return None
            v = vs[0][0]
            coef.setdefault(v, {})[tuple((x, k) for x, k in m if x is not v)] = c
        coef = {v: T._frompoly(c) for v, c in coef.items()}
        if any(free(c) & set(fv) for c in coef.values()):
            return None
        b = sub(b, T._frompoly(rest))
        g = self.ctx()
        trial = {}
        order = []
        left = dict(coef)
        # innermost first: unit coefficient, then the coefficient that the range of the
        # previous one fills
        cur = ONE
        while left:
            nx = [v for v in left if left[v] is cur]
            if len(nx) != 1:
                if len(left) == 1 and not order:
                    # K*v = b
                    (v, K), = left.items()
                    q, r = self.divmod_(b, K, g)
                    if r is ZERO:
                        sub_[v] = q
                        return True
                    return None
                return None
            v = nx[0]
            L = Loop.reg.get(v)
            del left[v]
            order.append(v)
            if not left:
                trial[v] = b
                break
            if L is None:
                return None
            lo, hi = subst(L.lo, sub_), subst(L.hi, sub_)
            if (free(lo) | free(hi)) & set(fv):
                return None
            # the next larger coefficient K: b = K*(...) + cur*v
            K = None
            for w in sorted(left):
                k = left[w]
                if all(self.divides(k, left[u]) for u in left):
                    K = k
                    break
            if K is None:
                return None
            K0 = K
            if cur is not ONE:
                K = self.quot(K, cur)
            b = sub(b, lo)
            size = sub(hi, lo)
            if K is not size and not T.implies(g, le(size, K)):
                return None
            q, r = self.divmod_(b, K, g)
            trial[v] = add(r, lo)
            b = q
            cur = K0
            # remaining variables are measured in units of K0
            left = {u: self.quot(c, K0) for u, c in left.items()}
            cur = ONE
        sub_.update(trial)
        return True

    def quot(self, a, k):
        if k is ONE:
            return a
        if a is k:
            return ONE
        pk, pa = T._poly(k), T._poly(a)
        if len(pk) != 1:
            # a = k * q with q a single monomial
            lead = max(pk, key=lambda m: (len(m), tuple(x.uid for x, _ in m)))
            for m, c in pa.items():
                q = div_mono(m, c, lead, pk[lead])
                if q is not None and mul(k, q) is a:
                    return q
            return None
        (m0, c0), = pk.items()
        out = []
        for m, c in pa.items():
            q = div_mono(m, c, m0, c0)
            if q is None:
                return None
            out.append(q)
        return add(*out)

    def divides(self, k, a):
        return self.quot(a, k) is not None

    def ctx_ne(self, d):
        """False if d is provably non-zero in the current context, else None"""
        if d.op == 'wrap':
            return None
        g = self.ctx()
        if and_(g, eq(d, ZERO)) is FALSE:
            return False
        # difference of two loop symbols with a non-zero constant handled by cval
        return None

    def unify_loc(self, b1, s1, b2, s2, vars_, sub_):
        r = True if b1 is b2 else self.unify(b1, b2, vars_, sub_)
        if r is False:
            return False
        res = r
        for x, y in zip(s1, s2):
            if x[0] != y[0]:
                return None
            if x[0] == 'f':
                if x[1] != y[1]:
                    return False
            else:
                r = self.unify(x[1], y[1], vars_, sub_)
                if r is False:
                    return False
                if r is None:
                    res = None
        if len(s1) != len(s2):
            # one is a prefix of the other: may overlap (struct vs member)
            return None
        return res

    def norm_loc(self, loc):
        b, s = loc
        return b, tuple(s)

    def store(self, loc, val, node, op='='):
        if not self.st.alive:
            return
        base, steps = self.norm_loc(loc)
        if base.op == 'obj' and base.args[0] == 'lv':
            key = base.args[1:3]
            self.st.env[key] = val
            self.varwrite(key, node)
            return
        e = Entry()
        e.base, e.steps, e.val, e.pc = base, steps, val, self.st.pc
        e.loops = tuple(self.loops)
        e.kind = 'set'
        e.red = ()
        e.seq = self.seq
        # normalise read-modify-write of the same location
        delta = None
        car = load(base, steps, 'carried', val.isint)
        car2 = load(base, steps, 'carried', not val.isint)
        for c in (car, car2):
            if c in set(subterms(val)):
                d = self.delta_load(val, c)
                if d is not None:
                    delta = d
        if delta is not None:
            e.kind = 'acc'
            e.val = delta
            op = '+='
            val = delta
            e.red = tuple(l for l in self.loops if not self.fixes(base, steps, l))
        ef = self.emit('store', node, loc=(base, steps), val=val, op=op)
        ef.red = e.red
        e.eff = ef
        e.seq = self.seq
        self.addentry(e)

    def delta_load(self, v, c):
        if v is c:
            return ZERO
        if v.op == 'ite':
            a, b = self.delta_load(v.args[1], c), self.delta_load(v.args[2], c)
            if a is None or b is None:
                return None
            return ite(v.args[0], a, b)
        if v.op in ('ptr', 'str'):
            return None
        d = sub(v, c)
        if c in set(subterms(d)):
            return None
        return d

    def fixes(self, base, steps, l):
        """does the location depend on loop index l?"""
        if l.sym in free(base):
            return True
        return any(s[0] == 'i' and l.sym in free(s[1]) for s in steps)

    def addentry(self, e):
        self.log.append(e)
        self.bybase.setdefault(self.bkey(e.base), []).append(e)

    def havoc(self, p, tag, node, args=()):
        """contents behind pointer p replaced by the outcome `tag`"""
        if p.op == 'ite':
            self.havoc(p.args[1], tag, node, args)
            self.havoc(p.args[2], tag, node, args)
            return
        if p.op != 'ptr':
            return
        base, steps = p.args
        if base.op == 'obj' and base.args[0] == 'lv' and not steps:
            key = base.args[1:3]
            d = self.decls.get(key)
            if d is not None and is_ptr_type(d.type):
                self.st.env[key] = ptr(obj('out', tag, *args), (('i', ZERO),))
            else:
                self.st.env[key] = fn('out:' + tag, args, is_int_type(d.type) if d is not None
                                      else False)
            self.varwrite(key, node)
            return
        e = Entry()
        e.base, e.steps, e.val, e.pc = base, steps[:-1] if steps and steps[-1][0] == 'i' \
            else steps, (tag, tuple(args)), self.st.pc
        e.loops = tuple(self.loops)
        e.kind = 'havoc'
        e.red = ()
        e.seq = self.seq
        e.eff = None
        self.addentry(e)

    def default(self, base, steps, isint, isptr):
        k = base.args[0] if base.op == 'obj' else None
        v = self.init.get((base, tuple(steps)))
        if v is not None:
            return v
        if k == 'fits':
            return ptr(obj('nohdu'), ())
        if k in ('hdu', 'nohdu'):
            f = steps[-1][1] if steps and steps[-1][0] == 'f' else ''
            if str(f).startswith('key:'):
                return fn('nokey', (str_(f),), isint)
            return fn('undef', (ptr(base, steps),), isint)
        if k == 'alloc':
            kind = base.args[1]
            if kind.endswith('0'):
                return ZERO
            return fn('undef', (ptr(base, steps),), isint)
        if k == 'var':
            if self.types.get(base) == 'zeroinit':
                return ZERO
            return fn('undef', (ptr(base, steps),), isint)
        if isptr:
            return ptr(obj('deref', ptr(base, steps)), (('i', ZERO),))
        if k == 'global':
            v = self.constant(base.args[1], steps)
            if v is not None:
                return v
        return load(base, steps, '', isint)

    def constant(self, name, steps):
        """element of a constant table"""
        d = self.P.globals.get(name)
        if d is None or name in self.P.twice or 'const' not in (d.type or '').split('*')[-1].split():
            return None
        init = [c for c in d.ch if not c.kind.endswith('Attr')]
        if not init:
            return None
        node = init[0]
        for s in steps:
            while node.kind in ('ImplicitCastExpr', 'ParenExpr'):
                node = node.ch[0]
            if s[0] != 'i' or node.kind != 'InitListExpr':
                return None
            i = T.ival(s[1])
            if i is None:
                if s is not steps[-1] or len(node.ch) > 64:
                    return None
                v = ZERO
                for j, x in reversed(list(enumerate(node.ch))):
                    if x.kind == 'InitListExpr':
                        return None
                    v = ite(eq(s[1], num(j)), self.expr(x), v)
                return v
            if not 0 <= i < len(node.ch):
                return None
            node = node.ch[i]
        if node.kind == 'InitListExpr':
            return None
        return self.expr(node)

    def load(self, loc, typ, node=None):
        base, steps = self.norm_loc(loc)
        isptr = is_ptr_type(typ)
        isint = is_int_type(typ)
        if base.op == 'obj' and base.args[0] == 'lv':
            if not steps:
                return self.st.env.get(base.args[1:3], sym('lv', isint))
            return fn('lvpart', (num(self.new()),), isint)
        if isptr and steps and steps[-1] == ('f', 'data') and base.op == 'obj' and \
                base.args[0] == 'alloc' and str(base.args[1]).startswith('gsl_'):
            # the elements of a fresh GSL object
            s = steps[:-1]
            if s and s[-1][0] == 'i' and isnum(s[-1][1], 0):
                s = s[:-1]
            return ptr(base, s + (('f', 'data'), ('i', ZERO)))
        ents = self.bybase.get(self.bkey(base), ())
        conds = []
        ctx = self.ctx()
        nopen = len(self.loops)
        # loops that are open now, innermost first; entries logged before loop L started have
        # no L in their loops
        res = None
        checked = 0   # number of innermost open loops whose carried patterns were examined
        idx = len(ents) - 1
        openl = list(self.loops)
        depth_checked = len(openl)
        ents = list(ents)

        def carried_at(depth):
            """patterns of open loop openl[depth] that may hit loc in another iteration"""
            L = openl[depth]
            for pb, ps, pl, kd, ppc in L.stores:
                m = {L.sym: sym('other#%d' % L.id, True)}
                # patterns were recorded with the pass-A loop symbol
                m[sym('#%d' % L.id, True)] = m[L.sym]
                pb2, ps2 = subst(pb, m), T.steps_subst(ps, m)
                vs = [x.sym for x in pl]
                if self.bkey(pb2) != self.bkey(base):
                    continue
                if kd == 'havoc':
                    ps2 = ps2 + steps[len(ps2):]
                ph = [x for x in list(free(pb2)) + [y for s in ps2 if s[0] == 'i'
                                                    for y in free(s[1])]
                      if x.args[0].startswith('phi(') and x.args[0].endswith('#%d' % L.id)]
                vs = vs + ph + [m[L.sym]]
                sb = {}
                r = self.unify_loc(pb2, ps2, base, steps, vs, sb)
                if r is False:
                    continue
                # other iteration: is the other index forced to equal the current one?
                o = sb.get(m[L.sym])
                if r is True and o is not None and o is L.sym:
                    continue
                if r is True and any(sb.get(q) is not None and self.same_iter(sb[q], L)
                                     for q in ph):
                    continue
                # conditions under which that other iteration stores
                g = ppc
                for l in pl:
                    g = and_(g, constraints(l))
                g = subst(subst(g, m), sb)
                if g is FALSE or and_(ctx, g) is FALSE:
                    continue
                return True
            return False

        for e in reversed(ents):
            # has the scan left the current iteration of some open loop?
            while depth_checked > 0 and not (len(e.loops) >= depth_checked and
                                             e.loops[depth_checked - 1] is
                                             openl[depth_checked - 1]):
                depth_checked -= 1
                if carried_at(depth_checked):
                    res = load(base, steps, 'carried', isint) if not isptr else \
                        ptr(obj('deref', ptr(base, steps)), (('i', ZERO),))
                    break
            if res is not None:
                break
            ncommon = 0
            for x, y in zip(e.loops, openl):
                if x is y:
                    ncommon += 1
                else:
                    break
            closed = e.loops[ncommon:]
            vs = [l.sym for l in closed]
            sb = {}
            es = e.steps
            if e.kind == 'havoc':
                if len(es) > len(steps):
                    continue
                r = self.unify_loc(e.base, es, base, steps[:len(es)], vs, sb)
            else:
                r = self.unify_loc(e.base, es, base, steps, vs, sb)
            if r is False:
                continue
            extra = TRUE
            if r is None and len(es) == len(steps) and (e.kind == 'acc' or (
                    e.kind == 'set' and not closed)):
                # same object, data-dependent index: the store counts where the indices agree
                sb = {}
                extra = self.eqguard(e.base, es, base, steps, vs, sb)
                if extra is FALSE:
                    continue
                r = True if extra is not None else None
            if r is None and len(es) == len(steps) and e.kind == 'set':
                # strided stores: a fixed number of elements per iteration
                sb = self.pinned(e.pc, vs, {l.sym: l.lo for l in closed})
                extra = self.strideguard(e.base, es, base, steps, vs, sb)
                if extra is FALSE:
                    continue
                r = True if extra is not None else None
            if r is None and len(es) == len(steps) and e.kind == 'set' and closed and \
                    e.base is base and e.val.op not in ('ptr', 'str') and \
                    not any(x in free(e.val) for x in vs) and \
                    all(a[0] == b[0] and (a[0] != 'f' or a[1] == b[1]) for a, b in zip(es, steps)):
                # one value stored wherever some iteration points to
                sb = {}
                hit = and_(e.pc, *[eq(a[1], b[1]) for a, b in zip(es, steps) if a[0] == 'i'])
                cnt = ite(hit, ONE, ZERO)
                for l in reversed(closed):
                    cnt = sum_(l, TRUE, cnt)
                conds.append(('set', self.residual(lt(ZERO, cnt), ctx), e.val))
                continue
            if r is None:
                if len(es) != len(steps) and e.kind != 'havoc':
                    # assignment to an enclosing/enclosed object
                    if len(es) > len(steps):
                        continue
                    res = load(base, steps, 'part', isint)
                    break
                res = self.maybe(base, steps, isint, isptr, e)
                break
            g = and_(subst(e.pc, sb), extra)
            rng = TRUE
            for l in closed:
                if l.sym in sb:
                    rng = and_(rng, subst(constraints(l), sb))
            if and_(ctx, g) is FALSE or and_(ctx, g, rng) is FALSE:
                continue
            if e.kind == 'havoc':
                tag, hargs = e.val
                a = [subst(x, sb) for x in hargs] + [s[1] for s in steps[len(es):]
                                                      if s[0] == 'i']
                f = [s[1] for s in steps[len(es):] if s[0] == 'f']
                nm = 'out:' + tag + ('.' + '.'.join(f) if f else '')
                v = fn(nm, a, isint) if not isptr else ptr(obj('out', nm, *a), (('i', ZERO),))
            elif e.kind == 'acc':
                # accumulated over reduction loops that are closed now
                openred = [l for l in e.red if l in openl]
                if openred:
                    # partial sum inside its own loop
                    if all(l in e.loops for l in openl) and not closed:
                        res = load(base, steps, 'carried', isint)
                        break
                    res = load(base, steps, 'carried', isint)
                    break
                d = e.val
                gg = e.pc
                # loops that index the location are solved by sb; the others are summed
                d = subst(d, sb)
                gg2 = and_(subst(e.pc, sb), extra)
                body = d
                guard_in = []
                for l in reversed(closed):
                    if l.sym in sb:
                        continue
                    here = [c for c in conj(gg2) if l.sym in free(c)]
                    rest = [c for c in conj(gg2) if l.sym not in free(c)]
                    lo = Loop.__new__(Loop)
                    lo.lo, lo.hi, lo.sym = subst(l.lo, sb), subst(l.hi, sb), l.sym
                    body = sum_(lo, and_(*here), body)
                    gg2 = and_(*rest)
                g = gg2
                # continue with the older value: v = old + body
                conds.append(('acc', self.residual(and_(g, rng), ctx), body))
                continue
            else:
                v = subst(e.val, sb)
                if any(x in free(g) for x in vs if x not in sb):
                    # stored in some of the iterations only
                    m2 = self.pinned(g, [x for x in vs if x not in sb],
                                     {l.sym: subst(l.lo, sb) for l in closed})
                    v, g = subst(v, m2), subst(g, m2)
                    for l in closed:
                        if l.sym in m2:
                            rng = and_(rng, subst(subst(constraints(l), sb), m2))
                    if any(x in free(g) for x in vs if x not in sb):
                        res = self.maybe(base, steps, isint, isptr, e)
                        break
                if any(x in free(v) for x in vs if x not in sb):
                    # last iteration wins
                    m2 = {l.sym: (sub(l.hi, ONE) if not l.desc else l.lo) for l in closed
                          if l.sym not in sb}
                    v = subst(v, m2)
                    g = subst(g, m2)
            resid = self.residual(and_(g, rng), ctx)
            if resid is TRUE:
                res = v
                break
            conds.append(('set', resid, v))
        else:
            pass
        if res is None:
            while depth_checked > 0:
                depth_checked -= 1
                if carried_at(depth_checked):
                    res = load(base, steps, 'carried', isint) if not isptr else \
                        ptr(obj('deref', ptr(base, steps)), (('i', ZERO),))
                    break
        if res is None:
            res = self.default(base, steps, isint, isptr)
        for k, g, v in reversed(conds):
            if k == 'set':
                if res.op == 'fn' and res.args[0] == 'undef' and not self.keep_undef:
                    res = v
                else:
                    res = ite(g, v, res)
            else:
                if res.op in ('ptr', 'str'):
                    continue
                res = add(res, ite(g, v, ZERO))
        return res

    def exactdiv(self, a, co):
        """a / c for a symbolic integer c -> (quotient, condition for it to be exact)"""
        lead = max((m for m in co if m), key=lambda m: (sum(e for b, e in m),
                                                        [(b.uid, e) for b, e in m]))
        k = co[lead]
        if k not in (1, -1):
            return None
        c = T._frompoly({m: x * k for m, x in co.items()})
        quo, rem = ZERO, {}
        for m, x in T._poly(a).items():
            d = dict(m)
            for b, e in lead:
                d[b] = d.get(b, 0) - e
            if all(e >= 0 for e in d.values()):
                quo = add(quo, T._frompoly({tuple((b, d[b]) for b, e in m if d[b]): x * k}))
        if any(getattr(x, 'denominator', 1) != 1 for x in T._poly(quo).values()):
            return None
        pl = T._poly(sub(mul(num(int(k)), a), mul(quo, c)))
        neg = all(x < 0 for x in pl.values())
        r = T._frompoly({m: -x for m, x in pl.items()} if neg else dict(pl))
        if r is ZERO:
            return quo, TRUE
        if not (r.isint and c.isint and quo.isint):
            return None
        h = idiv(r, c)
        return (sub(quo, h) if neg else add(quo, h)), eq(T.mod(r, c), ZERO)

    def pinned(self, g, vs, first=None):
        """iterations to which a condition restricts a store"""
        sb = {}
        for c in conj(g):
            if c.op == 'lt0' and first:
                # before the second iteration
                for v in vs:
                    if v in first and c.args[0] is sub(sub(v, first[v]), ONE):
                        sb[v] = first[v]
            if c.op != 'eq0':
                continue
            for v in vs:
                if v in sb:
                    continue
                pl = dict(T._poly(c.args[0]))
                k = pl.pop(((v, 1),), None)
                if k not in (1, -1) or any(w in free(b) for m in pl for b, x in m for w in vs):
                    continue
                sb[v] = mul(num(int(-k)), T._frompoly(pl))
                break
        return sb

    def strideguard(self, b1, s1, b2, s2, vs, sb):
        if b1 is not b2 and self.unify(b1, b2, vs, sb) is not True:
            return None
        g = TRUE
        for x, y in zip(s1, s2):
            if x[0] != y[0]:
                return None
            if x[0] == 'f':
                if x[1] != y[1]:
                    return FALSE
                continue
            s = dict(sb)
            r = self.unify(x[1], y[1], vs, s)
            if r is False:
                return FALSE
            if r is True:
                sb.update(s)
                continue
            a = subst(x[1], sb)
            fv = [v for v in vs if v in free(a) and v not in sb]
            if len(fv) != 1 or y[1].op in ('ptr', 'str') or a.op in ('ptr', 'str'):
                return None
            v = fv[0]
            # y - a = rest - c * v, with c independent of the iterations
            co, rest = {}, {}
            for m, k in T._poly(sub(y[1], a)).items():
                q = dict(m)
                if q.get(v) == 1:
                    del q[v]
                    co[tuple((b, e) for b, e in m if b is not v)] = -k
                elif v in q:
                    return None
                else:
                    rest[m] = k
            if not co or any(w in free(b) for pl in (co, rest) for m in pl for b, e in m
                             for w in vs):
                return None
            c = T._frompoly(co)
            k = T.cval(c)
            if k is not None and (getattr(k, 'denominator', 1) != 1 or abs(int(k)) < 2):
                return None
            rest = T._frompoly(rest)
            if not (c.isint and rest.isint):
                return None
            if k is None:
                qr = self.exactdiv(rest, co)
                if qr is None:
                    return None
                sb[v] = qr[0]
                g = and_(g, qr[1])
                continue
            sb[v] = idiv(rest, c)
            c = k
            g = and_(g, eq(mul(num(int(c)), sb[v]), rest))
        return g

    def eqguard(self, b1, s1, b2, s2, vs, sb):
        g = TRUE
        pend = []
        if b1 is not b2:
            # one row of many: the rows may agree
            if b1.op == 'obj' and b2.op == 'obj' and b1.args[0] == b2.args[0] == 'alloc' and \
                    len(b1.args) == len(b2.args) and b1.args[:3] == b2.args[:3]:
                pend = [(x, y) for x, y in zip(b1.args[3:], b2.args[3:])]
            elif self.unify(b1, b2, vs, sb) is not True:
                return None
        for x, y in zip(s1, s2):
            if x[0] != y[0]:
                return None
            if x[0] == 'f':
                if x[1] != y[1]:
                    return FALSE
                continue
            pend.append((x[1], y[1]))
        for a, b in pend:
            s = dict(sb)
            r = self.unify(a, b, vs, s)
            if r is False:
                return FALSE
            if r is True:
                sb.update(s)
        for a, b in pend:
            if a.op in ('ptr', 'str') or b.op in ('ptr', 'str'):
                return None
            g = and_(g, eq(subst(a, sb), b))
        return g

    def same_iter(self, t, L):
        return t is L.sym

    def maybe(self, base, steps, isint, isptr, e):
        if isptr:
            return ptr(obj('deref', ptr(base, steps)), (('i', ZERO),))
        return load(base, steps, 'maybe%d' % (e.seq), isint)

    def residual(self, g, ctx):
        return and_(*[c for c in conj(g) if not implies(ctx, c)])

    # ------------------------------------------------------------ lvalues
    def lval(self, n):
        """-> (base, steps)"""
        k = n.kind
        if k in ('ParenExpr',):
            return self.lval(n.ch[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.lval(n.ch[-1])
        if k == 'DeclRefExpr':
            key = self.varkey(n)
            if key is None:
                return obj('global', n.ref), ()
            v = self.st.env.get(key)
            d = self.decls.get(key)
            t = d.type if d is not None else ''
            if v is not None and v.op == 'ptr' and (t.endswith(']') or t in self.P.records) and \
                    v.args[0].op == 'obj' and v.args[0].args[0] == 'var':
                return v.args[0], ()
            return obj('lv', *key), ()
        if k == 'MemberExpr':
            if n.arrow:
                p = self.expr(n.ch[0])
                b, s = self.deref(p)
            else:
                b, s = self.lval(n.ch[0])
            return b, s + (('f', n.name),)
        if k == 'ArraySubscriptExpr':
            p = self.expr(n.ch[0])
            i = self.expr(n.ch[1])
            return self.deref(self.padd(p, i))
        if k == 'UnaryOperator' and n.op == '*':
            return self.deref(self.expr(n.ch[0]))
        if k == 'ConditionalOperator':
            return self.deref(self.expr(n))
        return obj('tmp', self.new()), ()

    def deref(self, p):
        if p.op == 'ptr':
            return p.args
        if p.op == 'ite':
            # gated pointer: a location of its own
            return obj('gated', p), ()
        return obj('addr', p), (('i', ZERO),)

    def padd(self, p, i):
        if p.op == 'ptr':
            b, s = p.args
            if s and s[-1][0] == 'i':
                return ptr(b, s[:-1] + (('i', add(s[-1][1], i)),))
            if isnum(i, 0):
                return p
            return ptr(b, s + (('i', i),))
        if p.op == 'ite':
            return ite(p.args[0], self.padd(p.args[1], i), self.padd(p.args[2], i))
        return ptr(obj('addr', p), (('i', i),))

    def varkey(self, n):
        if n.refkind in ('VarDecl', 'ParmVarDecl'):
            key = (self.frames[-1].id, n.refid)
            if key in self.st.env or key in self.decls:
                return key
        return None

    def varwrite(self, key, node):
        if self.omp and not self.quiet:
            self.emit('var', node, extra=key)

    # ------------------------------------------------------------ expressions
    def load_g(self, loc, typ, n):
        """load through possibly gated pointers"""
        b, s = loc
        if b.op == 'obj' and b.args[0] == 'gated':
            p = b.args[1]

            def go(q):
                if q.op == 'ite':
                    return ite(q.args[0], go(q.args[1]), go(q.args[2]))
                if q.op == 'ptr':
                    return self.load((q.args[0], q.args[1] + s), typ, n)
                return fn('badptr', (q,), is_int_type(typ))
            return go(p)
        return self.load(loc, typ, n)

    def store_g(self, loc, val, n, op='='):
        b, s = loc
        if b.op == 'obj' and b.args[0] == 'gated':
            def go(q):
                if q.op == 'ite':
                    self.branch(q.args[0], lambda: go(q.args[1]), lambda: go(q.args[2]))
                elif q.op == 'ptr':
                    self.store((q.args[0], q.args[1] + s), val, n, op)
            go(b.args[1])
            return
        self.store(loc, val, n, op)

    def expr(self, n):
        m = getattr(self, 'x_' + n.kind, None)
        if m is None:
            self.notes.append('unsupported %s at %s:%s' % (n.kind, n.file, n.line))
            for c in n.ch:
                if c.kind not in ('<null>',):
                    self.expr(c)
            return self.opaque_term('unsup')
        return m(n)

    def x_ParenExpr(self, n):
        return self.expr(n.ch[0])

    def x_IntegerLiteral(self, n):
        return num(int(n.value))

    def x_FloatingLiteral(self, n):
        return num(float(n.value))

    def x_CharacterLiteral(self, n):
        return num(int(n.value))

    def x_ImaginaryLiteral(self, n):
        return sym('I')

    def x_StringLiteral(self, n):
        s = n.value or '""'
        if s.startswith('"') and s.endswith('"'):
            s = s[1:-1]
        try:
            s = bytes(s, 'utf8').decode('unicode_escape')
        except Exception:
            pass
        return str_(s)

    def x_ConstantExpr(self, n):
        return self.expr(n.ch[0])

    def x_InitListExpr(self, n):
        for c in n.ch:
            self.expr(c)
        return self.opaque_term('init')

    def x_UnaryExprOrTypeTraitExpr(self, n):
        t = n.aux
        if t is None and n.ch:
            t = n.ch[0].type
        sz = {'double': 8, 'flouble': 8, 'int': 4, 'float': 4, 'long': 8, 'char': 1,
              'fcomplex': 16, '_Complex double': 16, 'double complex': 16}.get(t)
        if sz is None and t and is_ptr_type(t) and not t.endswith(']'):
            sz = 8
        if sz is not None:
            return num(sz)
        return sym('sizeof(%s)' % t, True)

    def x_DeclRefExpr(self, n):
        if n.refkind == 'FunctionDecl':
            return fn('func', (str_(n.ref),))
        if n.refkind == 'EnumConstantDecl':
            v = self.P.enums.get(n.ref)
            return num(v) if v is not None else sym(n.ref, True)
        key = self.varkey(n)
        if key is None:
            return ptr(obj('global', n.ref), ())
        v = self.st.env.get(key)
        if v is None:
            return sym('undef(%s)' % n.ref, is_int_type(n.type))
        return v

    def x_ImplicitCastExpr(self, n):
        return self.cast(n)

    def x_CStyleCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        c = n.cast
        if c == 'LValueToRValue':
            t = self.strip(n.ch[0])
            if n.ch[0].kind == 'DeclRefExpr' or (n.ch[0].kind == 'ParenExpr' and
                                                 t.kind == 'DeclRefExpr'):
                key = self.varkey(t)
                if key is not None:
                    return self.expr(t)
                return self.load((obj('global', t.ref), ()), n.type, n)
            return self.load_g(self.lval(n.ch[0]), n.type, n)
        if c == 'ArrayToPointerDecay':
            x = n.ch[0]
            while x.kind == 'ParenExpr':
                x = x.ch[0]
            if x.kind == 'StringLiteral':
                return self.expr(x)
            b, s = self.lval(x)
            return ptr(b, s + (('i', ZERO),))
        if c == 'FunctionToPointerDecay' or c == 'BuiltinFnToFnPtr':
            return self.expr(n.ch[0])
        if c == 'NullToPointer':
            return ZERO
        if c == 'FloatingToIntegral':
            return T.refn('toint', (self.expr(n.ch[-1]),), True)
        if c == 'IntegralToBoolean' or c == 'PointerToBoolean':
            return truth(self.expr(n.ch[-1]))
        return self.expr(n.ch[-1])

    def x_MemberExpr(self, n):
        return self.load_g(self.lval(n), n.type, n)

    def x_ArraySubscriptExpr(self, n):
        return self.load_g(self.lval(n), n.type, n)

    def x_ConditionalOperator(self, n):
        c = self.simp(truth(self.expr(n.ch[0])))
        if c is TRUE:
            return self.expr(n.ch[1])
        if c is FALSE:
            return self.expr(n.ch[2])
        out = []
        self.branch(c, lambda: out.append(self.expr(n.ch[1])),
                    lambda: out.append(self.expr(n.ch[2])))
        if len(out) < 2:
            return out[0] if out else ZERO
        a, b = out
        if isbool(a) and not isbool(b) and cval(b) is None:
            pass
        # max / min idioms
        if a.op not in ('ptr', 'str') and b.op not in ('ptr', 'str'):
            if c is lt(b, a) or c is le(b, a):
                return minmax('max', a, b)
            if c is lt(a, b) or c is le(a, b):
                return minmax('min', a, b)
        return ite(c, a, b)

    def x_UnaryOperator(self, n):
        op = n.op
        if op == '&':
            t = n.ch[0]
            while t.kind == 'ParenExpr':
                t = t.ch[0]
            b, s = self.lval(t)
            return ptr(b, s)
        if op == '*':
            return self.load_g(self.lval(n), n.type, n)
        if op in ('++', '--'):
            one = ONE if op == '++' else num(-1)
            loc = self.lval(n.ch[0])
            old = self.load_g(loc, n.ch[0].type, n)
            new = self.padd(old, one) if old.op == 'ptr' else add(old, one)
            self.store_g(loc, new, n)
            return old if n.aux else new
        v = self.expr(n.ch[0])
        if op == '-':
            return neg(v) if v.op not in ('ptr', 'str') else self.opaque_term('neg')
        if op == '+':
            return v
        if op == '!':
            return not_(truth(v))
        if op == '__extension__':
            return v
        return fn('un' + op, (v,), is_int_type(n.type))

    def x_BinaryOperator(self, n):
        op = n.op
        if op == '=':
            loc = self.lval(n.ch[0])
            v = self.expr(n.ch[1])
            self.store_g(loc, v, n)
            return v
        if op == ',':
            self.expr(n.ch[0])
            return self.expr(n.ch[1])
        if op in ('&&', '||'):
            a = self.simp(truth(self.expr(n.ch[0])))
            if op == '&&':
                if a is FALSE:
                    return FALSE
                out = []
                self.branch(a, lambda: out.append(truth(self.expr(n.ch[1]))), None)
                return and_(a, out[0] if out else TRUE)
            if a is TRUE:
                return TRUE
            out = []
            self.branch(not_(a), lambda: out.append(truth(self.expr(n.ch[1]))), None)
            return or_(a, out[0] if out else FALSE)
        a = self.expr(n.ch[0])
        b = self.expr(n.ch[1])
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        if a.op == 'ptr' or b.op == 'ptr' or (a.op == 'ite' and is_ptr_type(n.ch[0].type)):
            if op == '+':
                return self.padd(a, b) if is_ptr_type(n.ch[0].type) else self.padd(b, a)
            if op == '-' and b.op != 'ptr':
                return self.padd(a, neg(b))
            if op == '==':
                return self.peq(a, b)
            if op == '!=':
                return not_(self.peq(a, b))
            return fn('p' + op, (a, b), True)
        if a.op == 'str' or b.op == 'str':
            if op == '==':
                return eq(a, b)
            return fn('s' + op, (a, b), True)
        a0, b0 = a, b
        if isbool(a) and op not in ('==', '!='):
            a = ite(a, ONE, ZERO) if a.op != 'bool' else num(cval(a))
        if isbool(b) and op not in ('==', '!='):
            b = ite(b, ONE, ZERO) if b.op != 'bool' else num(cval(b))
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if is_int_type(n.type):
                return idiv(a, b)
            return div(a, b)
        if op == '%':
            return mod(a, b)
        if op == '<':
            return lt(a, b)
        if op == '<=':
            return le(a, b)
        if op == '>':
            return lt(b, a)
        if op == '>=':
            return le(b, a)
        if op == '==':
            return eq(a0, b0)
        if op == '!=':
            return not_(eq(a0, b0))
        if op == '&':
            return T.refn('bitand', (a, b), True)
        return fn('bin' + op, (a, b), is_int_type(n.type))

    def peq(self, a, b):
        if a.op == 'ite':
            return T.bool_ite(a.args[0], self.peq(a.args[1], b), self.peq(a.args[2], b))
        if b.op == 'ite':
            return self.peq(b, a)
        return eq(a, b)

    def x_CompoundAssignOperator(self, n):
        loc = self.lval(n.ch[0])
        op = n.op[:-1]
        # accumulations into memory keep their delta form
        rhs = self.expr(n.ch[1])
        base = loc[0]
        islv = base.op == 'obj' and base.args[0] == 'lv'
        old = self.load_g(loc, n.ch[0].type, n)
        if old.op == 'ptr':
            new = self.padd(old, rhs if op == '+' else neg(rhs))
        elif op in '+-*/':
            if isbool(rhs) and rhs.op != 'bool':
                rhs = ite(rhs, ONE, ZERO)
            new = {'+': add, '-': sub, '*': mul,
                   '/': (idiv if is_int_type(n.ch[0].type) and is_int_type(n.ch[1].type)
                         else div)}[op](old, rhs)
        else:
            new = fn('bin' + op, (old, rhs), is_int_type(n.type))
        self.store_g(loc, new, n)
        if not islv and self.effects and self.effects[-1].kind == 'store':
            ef = self.effects[-1]
            if ef.node is n and op == '+':
                ef.delta = rhs
            elif ef.node is n and op == '-':
                ef.delta = neg(rhs)
        return new

    def x_StmtExpr(self, n):
        self.stmt(n.ch[0])
        return self.opaque_term('stmtexpr')

    # ------------------------------------------------------------ calls
    def x_CallExpr(self, n):
        f = n.ch[0]
        c = self.strip(f)
        name = c.ref if c.kind == 'DeclRefExpr' and c.refkind == 'FunctionDecl' else None
        args = [self.expr(a) for a in n.ch[1:]]
        if name is None:
            return self.opaque_call('(indirect)', args, n, n.type)
        return self.call(name, args, n)

    def literal(self, t):
        return t.args[0] if t.op == 'str' else None

    def call(self, name, args, n):
        self.calls_resolved += 1
        if not self.st.alive:
            return ZERO
        m = self.models.get(name)
        if m is not None:
            r = m(self, args, n)
            if r is not NotImplemented:
                return r
        if name in PURE:
            a = args
            if name == 'pow' or (name == 'cpow' and T.ival(a[1]) is not None):
                return power(a[0], a[1])
            if name in ('abs', 'fabs', 'labs', 'fabsf'):
                return T.refn('abs', (a[0],), is_int_type(n.type))
            if name in ('sqrt', 'sqrtf'):
                return T.refn('sqrt', (a[0],))
            return T.refn(name, tuple(a), is_int_type(n.type))
        if name == 'strcmp' and all(self.literal(a) is not None for a in args[:2]):
            x, y = map(self.literal, args[:2])
            return num((x > y) - (x < y))
        if name in ('fmin', 'fmax'):
            return minmax(name[1:], args[0], args[1])
        if name in NOOP:
            self.emit('call', n, fn=name, args=args)
            return ZERO
        if name == 'report_error':
            lvl = args[0]
            self.emit('error', n, fn=name, args=args)
            c = truth(lvl)
            self.exits += 1
            self.kills += 1
            if c is TRUE:
                self.st = State(self.st.env, self.st.pc, False)
            elif c is not FALSE:
                self.st = self.st.fork(not_(c))
            return ZERO
        if name in ('longjmp', 'exit', 'abort'):
            self.emit('error', n, fn=name, args=args)
            self.exits += 1
            self.kills += 1
            self.st = State(self.st.env, self.st.pc, False)
            return ZERO
        if name in MALLOC:
            return self.alloc(MALLOC[name], args, n, name)
        if name == 'calloc':
            return self.alloc('malloc0', [mul(args[0], args[1])], n, name)
        if name in GSLALLOC:
            k, z = GSLALLOC[name]
            return self.alloc(k + ('0' if z else ''), args, n, name)
        if name == 'realloc':
            return self.opaque_call(name, args, n, n.type)
        if name in FREE:
            self.emit('free', n, fn=name, args=args, val=args[0])
            return ZERO
        if name == 'gsl_matrix_set':
            self.store_g(self.gslloc(args[0], args[1:3]), args[3], n)
            return ZERO
        if name == 'gsl_matrix_get':
            return self.load_g(self.gslloc(args[0], args[1:3]), 'double', n)
        if name == 'gsl_vector_set':
            self.store_g(self.gslloc(args[0], args[1:2]), args[2], n)
            return ZERO
        if name == 'gsl_vector_get':
            return self.load_g(self.gslloc(args[0], args[1:2]), 'double', n)
        if name in ('memcpy', 'memmove') or name in ('__builtin___memcpy_chk',
                                                     '__builtin___memmove_chk'):
            return self.memcpy(args, n)
        if name in ('memset', '__builtin___memset_chk'):
            return self.memset(args, n)
        f = self.P.lookup(name, self.frames[-1].func.file)
        if f is not None and name not in self.opaque:
            r = self.call_function(f, args, n)
            return r
        return self.opaque_call(name, args, n, n.type)

    def gslloc(self, p, idx):
        if p.op == 'ite':
            return obj('gated', p), tuple(('i', i) for i in idx)
        b, s = self.deref(p)
        if s and s[-1][0] == 'i' and isnum(s[-1][1], 0):
            s = s[:-1]
        return b, s + (('f', 'data'),) + tuple(('i', i) for i in idx)

    def alloc(self, kind, args, n, name):
        b = obj('alloc', kind, self.new(), *[l.sym for l in self.loops])
        self.emit('alloc', n, fn=name, args=args, res=b, extra=kind)
        self.allocinfo = getattr(self, 'allocinfo', {})
        self.allocinfo[b] = (kind, args, n, tuple(self.loops), self.st.pc)
        return ptr(b, (('i', ZERO),))

    def elemsize(self, n):
        n = self.strip_void(n)
        t = (n.type or '').strip()
        if t.endswith('*'):
            e = t[:-1].strip()
            if e.startswith('const '):
                e = e[6:]
            return {'double': 8, 'flouble': 8, 'int': 4, 'float': 4, 'long': 8, 'char': 1,
                    'fcomplex': 16}.get(e, 8 if e.endswith('*') else None), e
        return None, ''

    def strip_void(self, n):
        while n.kind in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') and \
                ('void' in (n.type or '') or n.kind == 'ParenExpr'):
            n = n.ch[-1]
        return n

    def memcpy(self, args, n):
        es, et = self.elemsize(n.ch[1])
        dst, src, nb = args[:3]
        cnt = None
        if es is not None:
            cnt = div(nb, num(es))
            if not cnt.isint:
                cnt = None
        if cnt is None or dst.op != 'ptr':
            self.emit('call', n, fn='memcpy', args=args)
            self.havoc(dst, 'memcpy#%d' % self.new(), n)
            return dst
        L = Loop(ZERO, cnt, n.file or self.frames[-1].func.file, n.line, 'k')
        if cval(cnt) is not None and cval(cnt) <= 0:
            return dst
        self.loops.append(L)
        try:
            v = self.load_g(self.deref(self.padd(src, L.sym)), et, n) if src.op in ('ptr', 'ite') \
                else self.opaque_term('cpy')
            self.store(self.deref(self.padd(dst, L.sym)), v, n)
        finally:
            self.loops.pop()
        return dst

    def memset(self, args, n):
        es, et = self.elemsize(n.ch[1])
        dst, val, nb = args[:3]
        cnt = None
        if es is not None and isnum(val, 0):
            cnt = div(nb, num(es))
            if not cnt.isint:
                cnt = None
        if cnt is None or dst.op != 'ptr':
            self.emit('call', n, fn='memset', args=args)
            self.havoc(dst, 'memset#%d' % self.new(), n)
            return dst
        L = Loop(ZERO, cnt, n.file or self.frames[-1].func.file, n.line, 'k')
        self.loops.append(L)
        try:
            self.store(self.deref(self.padd(dst, L.sym)), ZERO, n)
        finally:
            self.loops.pop()
        return dst

    def opaque_call(self, name, args, n, rtype):
        r = None
        vals = []
        for a in args:
            vals.append(a)
        e = self.emit('call', n, fn=name, args=list(args))
        uid = e.seq or self.new()
        if name in OUTARGS:
            outs = OUTARGS[name]
        elif name in READONLY:
            outs = ()
        else:
            outs = [i for i, a in enumerate(args) if a.op in ('ptr', 'ite') and
                    self.mutable_arg(n, i)]
        # a canonical name of the outcome: callee and its scalar arguments
        sc = tuple(a for i, a in enumerate(args) if a.op not in ('ptr', 'ite', 'str'))
        pin = tuple(a for i, a in enumerate(args) if a.op in ('ptr', 'str') and i not in outs)
        key = sc + pin
        for i in outs:
            if name in ('ffgcv', 'ffgky', 'ffgpxv') or name.startswith('ff'):
                self.havoc(args[i], '%s@%d:%d' % (name, uid, i), n, ())
            else:
                self.havoc(args[i], '%s:%d' % (name, i), n, key)
        if rtype and is_ptr_type(rtype):
            r = ptr(obj('res', name, uid, *[l.sym for l in self.loops]), (('i', ZERO),))
        elif rtype == 'void':
            r = ZERO
        else:
            r = fn('ret:' + name, key, is_int_type(rtype))
        e.res = r
        return r

    def mutable_arg(self, n, i):
        if n is None or i + 1 >= len(n.ch):
            return True
        a = n.ch[i + 1]
        t = a.type or ''
        if t.startswith('const '):
            return False
        # FILE*, fitsfile* handles are not data
        if t.startswith('fitsfile') or t.startswith('FILE'):
            return False
        return True


def summarize(prog, fname, args=None, **k):
    init = k.pop('init', None)
    file = k.pop('file', None)
    ev = CEval(prog, **k)
    ev.run(fname, args, init, file)
    return ev
