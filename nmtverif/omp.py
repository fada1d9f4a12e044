"""Data races in OpenMP regions: every unprotected store to shared memory has to have a location that
is different for different iterations of the work-shared loop."""
import os
import re
from . import calias, cfront

CASTS = calias.CASTS
ALLOC = re.compile(r'(alloc|init_rng|_create|_new|make_planner)\w*$')
RNGUSE = re.compile(r'^(rng_|gsl_rng_|gsl_ran_)')
# objects of external libraries that change when they are used: (function pattern, argument)
STATEFUL = [(re.compile(r'^gsl_(spline|interp)\w*_eval\w*$'), 'gsl_interp_accel'),
            (re.compile(r'^(gsl_rng|gsl_ran|rng_)'), 'gsl_rng'),
            (re.compile(r'^(ff|fits_)'), 'fitsfile'),
            (re.compile(r'^gsl_integration_'), 'gsl_integration_workspace'),
            (re.compile(r'^gsl_eigen_'), 'workspace')]


def strip(n):
    while n.kind in CASTS and n.ch:
        n = n.ch[-1]
    return n


def text(n):
    n = strip(n)
    k = n.kind
    if k == 'DeclRefExpr':
        return n.ref
    if k == 'MemberExpr':
        return text(n.ch[0]) + '.' + (n.name or '')
    if k == 'ArraySubscriptExpr':
        return text(n.ch[0]) + '[' + text(n.ch[1]) + ']'
    if k in ('IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral'):
        return str(n.value)
    if k == 'UnaryOperator':
        return '(' + (n.op or '') + text(n.ch[0]) + ')'
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        return '(' + text(n.ch[0]) + n.op + text(n.ch[1]) + ')'
    if k == 'CallExpr':
        return text(n.ch[0]) + '(' + ','.join(text(c) for c in n.ch[1:]) + ')'
    return k + '(' + ','.join(text(c) for c in n.ch) + ')'


def refs(n):
    return set(x.refid for x in n.walk() if x.kind == 'DeclRefExpr' and
               x.refkind in ('VarDecl', 'ParmVarDecl'))


_src = {}


def pragma(node):
    """text of the pragma of a directive"""
    if not node.file or not os.path.exists(node.file):
        return ''
    if node.file not in _src:
        _src[node.file] = open(node.file, errors='replace').read().split('\n')
    L = _src[node.file]
    i = node.line - 1
    while i > 0 and i < len(L) and '#pragma' not in L[i] and i > node.line - 12:
        i -= 1
    out = L[i] if i < len(L) else ''
    while out.rstrip().endswith('\\') and i + 1 < len(L):
        i += 1
        out = out.rstrip()[:-1] + ' ' + L[i]
    return out


def clause(t, *names):
    out = set()
    for nm in names:
        for m in re.finditer(r'\b%s\s*\(([^)]*)\)' % nm, t):
            for v in m.group(1).split(':')[-1].split(','):
                out.add(v.strip())
    return out


class Access(object):
    def __init__(self, node, base, subs, ctx, op, via=None):
        self.node, self.base, self.subs, self.ctx, self.op, self.via = node, base, subs, ctx, op, via

    def where(self):
        return '%s:%s' % (os.path.basename(self.node.file or ''), self.node.line)


class Ctx(object):
    def __init__(self, prot=False, loop=None, inner=(), conds=(), loopnode=None):
        self.prot, self.loop, self.inner, self.conds, self.loopnode = prot, loop, inner, conds, loopnode

    def set(self, **k):
        d = dict(prot=self.prot, loop=self.loop, inner=self.inner, conds=self.conds,
                 loopnode=self.loopnode)
        d.update(k)
        return Ctx(**d)


class Region(object):
    def __init__(self, P, A, f, node):
        self.P, self.A, self.f, self.node = P, A, f, node
        self.priv = set()
        self.defs = {}
        self.loops = {}
        self.acc = []                # unprotected and protected stores
        self.reads = []
        self.calls = []
        self.names = {}
        self.order = []
        t = pragma(node)
        self.pnames = clause(t, 'private', 'firstprivate', 'lastprivate', 'reduction', 'linear')
        self.nowait = []
        loop = None
        body = self.body(node)
        c = Ctx()
        if 'For' in node.kind:
            self.walkfor(body, c, node)
        else:
            self.walk(body, c)

    def body(self, n):
        for c in n.ch:
            if c.kind == 'CapturedStmt':
                d = c.ch[0]
                return d.ch[0] if d.kind == 'CapturedDecl' else d
        for c in n.ch:
            if c.kind.endswith('Stmt') or c.kind.endswith('Directive') or c.kind.endswith('Operator') or \
                    c.kind == 'CallExpr':
                return c
        return None

    # ---------------------------------------------------------------- traversal
    def walkfor(self, n, ctx, d):
        t = pragma(d)
        self.pnames |= clause(t, 'private', 'firstprivate', 'lastprivate', 'reduction', 'linear')
        while n is not None and n.kind != 'ForStmt' and n.ch:
            n = n.ch[0]
        if n is None or n.kind != 'ForStmt':
            return
        v = self.loopvar(n)
        self.priv.add(v)
        self.loops[v] = n
        if 'nowait' in t:
            self.nowait.append(d)
        for c in n.ch[:-1]:
            if c is not n.ch[0]:
                self.walk(c, ctx)
        self.defs.setdefault(v, []).append(('loop', n))
        self.walk(n.ch[-1], ctx.set(loop=v, loopnode=n))

    def loopvar(self, n):
        for x in n.ch[0].walk():
            if x.kind == 'VarDecl':
                return x.id
            if x.kind == 'DeclRefExpr':
                return x.refid
        for x in n.ch[-2].walk():
            if x.kind == 'DeclRefExpr':
                return x.refid
        return None

    def walk(self, n, ctx):
        if n is None:
            return
        k = n.kind
        self.order.append(n)
        if k.startswith('OMP'):
            if 'For' in k:
                return self.walkfor(self.body(n), ctx, n)
            if any(x in k for x in ('Critical', 'Atomic', 'Single', 'Master', 'Ordered', 'Masked')):
                return self.walk(self.body(n), ctx.set(prot='one' if any(
                    x in k for x in ('Single', 'Master', 'Masked')) else True))
            b = self.body(n)
            return self.walk(b, ctx) if b is not None else None
        if k in ('CapturedStmt', 'CapturedDecl'):
            return self.walk(n.ch[0], ctx)
        if k == 'DeclStmt':
            for d in n.ch:
                if d.kind == 'VarDecl':
                    if d.cast == 'static':
                        self.names[d.id] = d.name
                    else:
                        self.priv.add(d.id)
                    self.names[d.id] = d.name
                    if d.ch:
                        self.defs.setdefault(d.id, []).append(('expr', d.ch[-1]))
                        self.walk(d.ch[-1], ctx)
            return
        if k == 'ForStmt':
            v = self.loopvar(n)
            self.loops[v] = n
            self.defs.setdefault(v, []).append(('loop', n))
            self.walk(n.ch[0], ctx.set(prot=ctx.prot))
            for c in n.ch[1:-1]:
                self.walk(c, ctx)
            self.walk(n.ch[-1], ctx.set(inner=ctx.inner + (v,)))
            return
        if k == 'IfStmt':
            self.walk(n.ch[0], ctx)
            self.walk(n.ch[1], ctx.set(conds=ctx.conds + (n.ch[0],)))
            if len(n.ch) > 2:
                self.walk(n.ch[2], ctx.set(conds=ctx.conds + (n.ch[0],)))
            return
        if k == 'ImplicitCastExpr' and n.cast == 'LValueToRValue' and strip(n).kind in (
                'ArraySubscriptExpr', 'UnaryOperator'):
            self.reads.append(Access(n, None, n, ctx, 'read'))
        if k == 'BinaryOperator' and n.op == '=':
            self.store(n, n.ch[0], n.ch[1], ctx, '=')
            self.walk(n.ch[1], ctx)
            self.lv(n.ch[0], ctx)
            return
        if k == 'CompoundAssignOperator':
            self.store(n, n.ch[0], None, ctx, n.op)
            self.walk(n.ch[1], ctx)
            self.lv(n.ch[0], ctx)
            return
        if k == 'UnaryOperator' and n.op in ('++', '--'):
            self.store(n, n.ch[0], None, ctx, n.op)
            self.lv(n.ch[0], ctx)
            return
        if k == 'CallExpr':
            self.calls.append((n, ctx))
            # out parameters given by address
            for a in n.ch[1:]:
                s = strip(a)
                if s.kind == 'UnaryOperator' and s.op == '&':
                    b = strip(s.ch[0])
                    if b.kind == 'DeclRefExpr':
                        self.defs.setdefault(b.refid, []).append(('call', n))
        for c in n.ch:
            self.walk(c, ctx)

    def lv(self, n, ctx):
        for c in n.ch:
            self.walk(c, ctx)

    def store(self, n, lhs, rhs, ctx, op):
        s = strip(lhs)
        if s.kind == 'DeclRefExpr':
            self.defs.setdefault(s.refid, []).append(('expr', rhs) if rhs is not None else ('upd', n))
        self.acc.append(Access(n, None, lhs, ctx, op))

    def isprivate(self, d):
        return d.refid in self.priv or d.ref in self.pnames

    # ---------------------------------------------------------------- locations
    def locate(self, n, depth=0):
        """list of (kind, base, subscripts): kind 'shared' | 'private' | 'unknown'"""
        n = strip(n)
        k = n.kind
        if depth > 12:
            return [('unknown', None, [])]
        if k == 'DeclRefExpr':
            return [('private' if self.isprivate(n) else 'shared', n, [])]
        if k == 'MemberExpr':
            if n.arrow:
                return [(a, b, s + [('field', n.name)]) for a, b, s in self.pointee(n.ch[0], depth)]
            return [(a, b, s + [('field', n.name)]) for a, b, s in self.locate(n.ch[0], depth + 1)]
        if k == 'ArraySubscriptExpr':
            return [(a, b, s + [('sub', n.ch[1])]) for a, b, s in self.pointee(n.ch[0], depth)]
        if k == 'UnaryOperator' and n.op == '*':
            return self.pointee(n.ch[0], depth)
        if k == 'ConditionalOperator':
            return self.locate(n.ch[1], depth + 1) + self.locate(n.ch[2], depth + 1)
        return [('unknown', None, [])]

    def pointee(self, n, depth=0):
        """where a pointer expression points"""
        n = strip(n)
        k = n.kind
        if depth > 12:
            return [('unknown', None, [])]
        if k == 'UnaryOperator' and n.op == '&':
            return self.locate(n.ch[0], depth + 1)
        if k == 'BinaryOperator' and n.op in ('+', '-'):
            p, o = (n.ch[0], n.ch[1]) if '*' in (n.ch[0].type or '') or '[' in (n.ch[0].type or '') else \
                (n.ch[1], n.ch[0])
            return [(a, b, s + [('sub', o)]) for a, b, s in self.pointee(p, depth + 1)]
        if k == 'CallExpr':
            f = strip(n.ch[0])
            nm = f.ref if f.kind == 'DeclRefExpr' else ''
            if nm in calias.ALIASES:
                return [(a, b, s + [('sub', x) for x in n.ch[2:]])
                        for a, b, s in self.pointee(n.ch[1 + calias.ALIASES[nm]], depth + 1)]
            return [('private' if ALLOC.search(nm or '') else 'unknown', None, [])]
        if k == 'DeclRefExpr':
            if not self.isprivate(n):
                return [('shared', n, [('ptr', n.ref)])]
            if '[' in (n.type or ''):
                return [('private', n, [])]
            ds = [d for d in self.defs.get(n.refid, []) if not (d[0] == 'expr' and null(d[1]))]
            if not ds:
                return [('shared' if n.ref in self.pnames else 'unknown', n, [])]
            out = []
            for kind, e in ds:
                if kind == 'expr':
                    out += self.pointee(e, depth + 1)
                else:
                    out.append(('unknown', n, []))
            return out
        if k == 'MemberExpr' or k == 'ArraySubscriptExpr' or k == 'UnaryOperator' and n.op == '*':
            # a pointer stored in memory: shared if the memory is
            return [(a, b, s + [('ptr', '')]) for a, b, s in self.locate(n, depth + 1)]
        if k == 'ConditionalOperator':
            return self.pointee(n.ch[1], depth + 1) + self.pointee(n.ch[2], depth + 1)
        return [('unknown', None, [])]

    # ---------------------------------------------------------------- subscripts
    def deps(self, n, seen=()):
        """the work-shared loop variables, other loop variables and opaque names n depends on"""
        out = set()
        for x in n.walk():
            if x.kind == 'DeclRefExpr' and x.refkind in ('VarDecl', 'ParmVarDecl'):
                out |= self.vdeps(x.refid, seen)
        return out

    def vdeps(self, v, seen=()):
        if v in seen:
            return set()
        out = {v}
        for kind, e in self.defs.get(v, []):
            if kind == 'loop':
                out |= self.deps(e.ch[0], seen + (v,)) | self.deps(e.ch[-3], seen + (v,))
            elif kind in ('expr', 'upd', 'call') and e is not None:
                out |= self.deps(e, seen + (v,))
        # array variables filled in the region
        return out

    def elemdeps(self, n, i):
        """does n depend on i, also through the elements of private arrays"""
        ds = self.deps(n)
        if i in ds:
            return True
        for a in self.acc:
            s = strip(a.subs)
            while s.kind in ('ArraySubscriptExpr', 'MemberExpr') and s.ch:
                s = strip(s.ch[0])
            if s.kind == 'DeclRefExpr' and s.refid in ds and (s.refid in self.priv) and a.node.ch:
                if i in self.deps(a.node):
                    return True
        for c, ctx in self.calls:
            args = c.ch[1:]
            for x in args:
                y = strip(x)
                if y.kind == 'DeclRefExpr' and y.refid in ds and y.refid in self.priv and \
                        '*' in (y.type or '') and any(i in self.deps(z) for z in args if z is not x):
                    return True
        return False

    def poly(self, n, depth=0):
        """{monomial: coefficient}; monomials are tuples of atoms (loop or other variables, texts)"""
        n = strip(n)
        k = n.kind
        if k == 'IntegerLiteral':
            c = int(n.value)
            return {(): c} if c else {}
        if k == 'BinaryOperator' and n.op in ('+', '-', '*'):
            a, b = self.poly(n.ch[0], depth), self.poly(n.ch[1], depth)
            out = {}
            if n.op == '*':
                for m, x in a.items():
                    for q, y in b.items():
                        t = tuple(sorted(m + q, key=str))
                        out[t] = out.get(t, 0) + x * y
            else:
                out = dict(a)
                for q, y in b.items():
                    out[q] = out.get(q, 0) + (y if n.op == '+' else -y)
            return {m: x for m, x in out.items() if x}
        if k == 'UnaryOperator' and n.op == '-':
            return {m: -x for m, x in self.poly(n.ch[0], depth).items()}
        if k == 'DeclRefExpr' and n.refkind in ('VarDecl', 'ParmVarDecl'):
            ds = self.defs.get(n.refid, [])
            if self.isprivate(n) and len(ds) == 1 and ds[0][0] == 'expr' and depth < 8:
                return self.poly(ds[0][1], depth + 1)
            return {(('v', n.refid),): 1}
        return {(('x', text(n), n),): 1}

    def classify(self, n, i, inner):
        """'inj' | 'none' | 'mixed' | 'data' | 'call' of a subscript with respect to i"""
        p = self.poly(n)
        coef, rest = [], []
        for m, x in p.items():
            lin = [a for a in m if a == ('v', i)]
            other = [a for a in m if a != ('v', i)]
            od = False
            call = False
            for a in other:
                if a[0] == 'x':
                    if self.elemdeps(a[2], i):
                        od = True
                        call = call or any(y.kind == 'CallExpr' for y in a[2].walk())
                elif a[1] != i and i in self.vdeps(a[1]):
                    if a[1] in self.loops and a[1] in inner:
                        continue     # an inner loop whose bounds depend on i
                    od = True
                    call = call or any(kd == 'call' or kd == 'expr' and any(
                        y.kind == 'CallExpr' for y in e.walk()) for kd, e in self.defs.get(a[1], []))
            if od:
                return 'call' if call else 'data'
            if len(lin) > 1:
                return 'data'
            if lin:
                coef.append((tuple(other), x))
            else:
                rest.append((m, x))
        if not coef:
            return 'none'
        varying = any(a[0] == 'v' and (a[1] in inner or len(self.defs.get(a[1], [])) > 1) or a[0] == 'x' and
                      any(d in inner for d in self.deps(a[2])) for m, x in rest for a in m)
        if not varying:
            return 'inj'
        if len(coef) == 1 and coef[0][0] == () and abs(coef[0][1]) == 1:
            return 'mixed'
        return 'inj'

    def guarded(self, ctx):
        """a condition that selects one iteration or one thread"""
        for c in ctx.conds:
            for x in c.walk():
                if x.kind == 'BinaryOperator' and x.op == '==' and ctx.loop is not None and \
                        (ctx.loop in self.deps(x.ch[0])) != (ctx.loop in self.deps(x.ch[1])):
                    return True
                if x.kind == 'DeclRefExpr' and (x.ref or '').startswith('omp_get'):
                    return True
        return False

    def threadid(self, n):
        return any(x.kind == 'DeclRefExpr' and (x.ref or '').startswith('omp_get') or
                   x.kind == 'DeclRefExpr' and any(
                       kd == 'expr' and e is not None and any(
                           (y.ref or '').startswith('omp_get') for y in e.walk() if y.kind == 'DeclRefExpr')
                       for kd, e in self.defs.get(x.refid, []))
                   for x in n.walk())

    def judge(self, node, locs, ctx, op):
        """(verdict, text) of a store: 'ok' | 'bad' | 'unk'"""
        res = ('ok', '')
        for kind, base, path in locs:
            if kind == 'private':
                continue
            if kind == 'unknown':
                res = ('unk', 'target not resolved') if res[0] == 'ok' else res
                continue
            if ctx.prot:
                continue
            subs = [x for t, x in path if t == 'sub']
            if any(self.threadid(x) for x in subs) or self.guarded(ctx):
                res = ('unk', 'selected by thread or iteration') if res[0] == 'ok' else res
                continue
            nm = (base.ref if base is not None else '?') + ''.join(
                '.' + x if t == 'field' else '[%s]' % text(x) if t == 'sub' else '' for t, x in path)
            if ctx.loop is None:
                return 'bad', 'every thread stores to shared %s' % nm
            cl = [self.classify(x, ctx.loop, ctx.inner) for x in subs]
            if 'inj' in cl:
                continue
            if 'call' in cl and op == '=':
                res = ('unk', 'index computed by a call') if res[0] == 'ok' else res
                continue
            if 'data' in cl and op == '=':
                # each iteration may have its own entries in the table (the multipoles of a band)
                res = ('unk', 'index looked up in a table') if res[0] == 'ok' else res
                continue
            if 'mixed' in cl and len(cl) > 1 or any(c not in ('none', 'mixed', 'data', 'call') for c in cl):
                res = ('unk', 'index not understood') if res[0] == 'ok' else res
                continue
            return 'bad', 'different iterations may store to the same element of shared %s (%s)' % (
                nm, op)
        return res


def null(n):
    n = strip(n)
    return n.kind == 'IntegerLiteral' and n.value == '0' or n.kind == 'GNUNullExpr'


def regions(P, A):
    out = []
    seen = set()
    for f in allfuncs(P):
        if f.body is None or f.file.startswith(cfront.SPEC):
            continue

        def go(n):
            if n.kind.startswith('OMPParallel'):
                k = (n.file, n.line, f.name)
                if k not in seen:
                    seen.add(k)
                    out.append(Region(P, A, f, n))
                return
            if n.kind == 'CapturedDecl':
                return go(n.ch[0])
            for c in n.ch:
                go(c)
        go(f.body)
    return out


def allfuncs(P):
    for x in P.funcs.values():
        for f in (x if isinstance(x, (list, tuple)) else x.values() if isinstance(x, dict) else [x]):
            yield f


def globalstores(P, f, seen, out):
    """unprotected stores to static or global variables in f and the functions it calls"""
    if f.name in seen:
        return
    seen.add(f.name)
    if f.body is None:
        return
    if any(x.kind == 'CallExpr' and strip(x.ch[0]).ref in ('exit', 'longjmp', 'abort', 'throw_exception')
           for x in f.body.walk()):
        return
    loc = set(x.id for x in f.node.walk() if x.kind in ('VarDecl', 'ParmVarDecl') and
              x.cast not in ('static', 'extern'))

    def base(n):
        n = strip(n)
        while n.kind in ('ArraySubscriptExpr', 'MemberExpr') or n.kind == 'UnaryOperator' and n.op == '*':
            n = strip(n.ch[0])
        return n

    def go(n, prot):
        if n.kind.startswith('OMP') and any(x in n.kind for x in ('Critical', 'Atomic', 'Single')):
            prot = True
        if n.kind == 'CapturedDecl':
            return go(n.ch[0], prot)
        t = None
        if n.kind == 'BinaryOperator' and n.op == '=' or n.kind == 'CompoundAssignOperator' or \
                n.kind == 'UnaryOperator' and n.op in ('++', '--'):
            t = base(n.ch[0])
        if t is not None and t.kind == 'DeclRefExpr' and t.refkind == 'VarDecl' and t.refid not in loc \
                and not prot:
            out.append((f, n, t.ref))
        if n.kind == 'CallExpr':
            nm = strip(n.ch[0]).ref
            g = P.lookup(nm, f.file) if nm else None
            if g is not None and not prot:
                globalstores(P, g, seen, out)
        for c in n.ch:
            go(c, prot)
    go(f.body, False)


def partial(R, a):
    """name of the variable private to a thread, filled in a work-shared loop, that is added"""
    if a.op == '=' and not any(text(x) == text(a.subs) for x in a.node.ch[1].walk()):
        return None
    mine = set()
    for b in R.acc:
        if b.ctx.loop is None:
            continue
        for k, base, path in R.locate(b.subs):
            if k == 'private' and base is not None:
                mine.add(base.refid)
        s = strip(b.subs)
        while s.kind in ('ArraySubscriptExpr', 'MemberExpr') and s.ch:
            s = strip(s.ch[0])
        if s.kind == 'DeclRefExpr' and R.isprivate(s) and b.op != '=':
            mine.add(s.refid)
    for x in a.node.ch[-1].walk():
        if x.kind == 'DeclRefExpr' and x.refid in mine and x.refid not in R.loops and R.isprivate(x):
            return x.ref
    return None


def canon(p):
    out = {}
    for m, c in p.items():
        k = tuple(sorted((a[:2] for a in m), key=str))
        out[k] = out.get(k, 0) + c
    return {m: c for m, c in out.items() if c}


def shifted(lin, p, q, i):
    """the subscripts p and q differ by a multiple of the step between two iterations"""
    d = {m: p.get(m, 0) - q.get(m, 0) for m in set(p) | set(q)}
    for m in lin:
        step = list(m)
        step.remove(('v', i))
        for t, c in d.items():
            r = list(t)
            if c and all(x in r and (r.remove(x) or True) for x in step) and len(r) <= 1:
                return True
    return False


def reads(R, add):
    """reads of elements that other iterations of the same loop store to"""
    done = set()
    for a in R.acc:
        if a.ctx.prot or a.ctx.loop is None:
            continue
        i = a.ctx.loop
        for ka, ba, pa in R.locate(a.subs):
            if ka != 'shared' or ba is None:
                continue
            sa = [x for t, x in pa if t == 'sub']
            ca = [R.classify(x, i, a.ctx.inner) for x in sa]
            if 'inj' not in ca:
                continue
            for r in R.reads:
                if r.ctx.loop != i or r.ctx.prot or R.guarded(r.ctx) or (id(a.node), id(r.node)) in done:
                    continue
                for kr, br, pr in R.locate(r.subs):
                    if kr != 'shared' or br is None or br.refid != ba.refid or \
                            [t for t, x in pr] != [t for t, x in pa] or \
                            [x for t, x in pr if t == 'field'] != [x for t, x in pa if t == 'field']:
                        continue
                    done.add((id(a.node), id(r.node)))
                    sr = [x for t, x in pr if t == 'sub']
                    cr = [R.classify(x, i, r.ctx.inner) for x in sr]
                    v = 'bad'
                    for x, y, cx, cy in zip(sa, sr, ca, cr):
                        if cx == 'inj' and cy == 'inj':
                            px, py = canon(R.poly(x)), canon(R.poly(y))
                            lx = {m: c for m, c in px.items() if ('v', i) in m}
                            ly = {m: c for m, c in py.items() if ('v', i) in m}
                            if px == py:
                                v = 'ok'
                            elif v == 'bad' and not (lx == ly and shifted(lx, px, py, i)):
                                v = 'unk'
                        elif cx == 'inj' and (cy == 'mixed' or 'inj' in cr) and v == 'bad':
                            v = 'unk'
                        elif cx == 'none' and cy == 'none' and v == 'bad' and canon(R.poly(x)) != canon(R.poly(y)) and \
                                not R.poly(x).keys() - {()} and not R.poly(y).keys() - {()}:
                            v = 'ok'      # different constant elements
                    if v != 'unk':
                        add('read %s' % text(r.subs)[:60], v, '%s:%s' % (os.path.basename(
                            r.node.file or ''), r.node.line), 'an element of shared %s that another iteration '
                            'may be storing to is read' % text(r.subs) if v == 'bad' else '')
    return []


def check_region(R):
    """[(key, verdict, where, text, data)]"""
    P, A, f = R.P, R.A, R.f
    out = []
    fn = f.name
    stores = 0
    count = {}

    def add(tag, v, where, txt):
        k = '%s:%s' % (fn, tag)
        count[k] = count.get(k, 0) + 1
        out.append((k if count[k] == 1 else '%s#%d' % (k, count[k]), v, where, txt))
    for a in R.acc:
        locs = R.locate(a.subs)
        if all(l[0] == 'private' for l in locs):
            continue
        v, t = R.judge(a.node, locs, a.ctx, a.op)
        add('store %s' % text(a.subs)[:60], v, a.where(), t)
        if a.ctx.prot == 'one':
            part = partial(R, a)
            if part:
                add('merge %s' % text(a.subs)[:60], 'bad', a.where(), 'only one thread adds its part %s '
                    'of the result' % part)
    out += reads(R, add)
    # symmetric stores
    for a in R.acc:
        for b in R.acc:
            if a is b or a.ctx.prot or b.ctx.prot or a.ctx.loop is None or a.ctx.loop != b.ctx.loop:
                continue
            for ka, ba, pa in R.locate(a.subs):
                for kb, bb, pb in R.locate(b.subs):
                    if ka != 'shared' or kb != 'shared' or ba is None or bb is None or \
                            ba.refid != bb.refid or [t for t, x in pa] != [t for t, x in pb] or \
                            [x for t, x in pa if t == 'field'] != [x for t, x in pb if t == 'field']:
                        continue
                    i = a.ctx.loop
                    ca = [R.classify(x, i, a.ctx.inner) for t, x in pa if t == 'sub']
                    cb = [R.classify(x, i, b.ctx.inner) for t, x in pb if t == 'sub']
                    if 'inj' not in ca or 'inj' not in cb:
                        continue
                    if any(x == y == 'inj' for x, y in zip(ca, cb)):
                        continue
                    # i is in different dimensions
                    js = set()
                    for c, p, ctx in ((ca, pa, a.ctx), (cb, pb, b.ctx)):
                        other = [x for t, x in p if t == 'sub']
                        for cl, x in zip(c, other):
                            if cl == 'none':
                                js |= set(d for d in R.deps(x) if d in ctx.inner)
                    bounded = [j for j in js if i in R.vdeps(j)]
                    conds = [x for x in a.ctx.conds + b.ctx.conds if i in R.deps(x) and js & R.deps(x) and any(
                        y.kind == 'BinaryOperator' and y.op in ('<', '>', '<=', '>=') for y in x.walk())]
                    if bounded or conds or not js:
                        v = ('ok' if js else 'unk', '')
                    else:
                        v = ('bad', 'iterations store to each other\'s elements: %s and %s' % (
                            text(a.subs), text(b.subs)))
                    if a.node.line <= b.node.line:
                        add('pair %s' % text(a.subs)[:60], v[0], a.where() + '; ' + b.where(), v[1])
    # calls
    seen = {}
    for n, ctx in R.calls:
        c = strip(n.ch[0])
        nm = c.ref if c.kind == 'DeclRefExpr' else None
        if nm is None:
            continue
        g = P.lookup(nm, f.file)
        args = n.ch[1:]
        where = '%s:%s' % (os.path.basename(n.file or ''), n.line)
        if g is not None and g.body is not None:
            for i, a in enumerate(args):
                if '*' not in (a.type or '') or i >= len(g.params):
                    continue
                r = A.run(g, {(i, ()): True})
                if not any(s.must for s in r.sites.values()):
                    continue
                locs = R.pointee(a)
                if all(l[0] == 'private' for l in locs):
                    continue
                v, t = R.judge(n, locs, ctx, 'stored by ' + nm)
                add('call %s(%s)' % (nm, text(a)[:40]), v, where, t)
            if nm not in seen:
                o = []
                globalstores(P, g, set(), o)
                seen[nm] = o
                if ctx.prot:
                    continue
                if o:
                    add('call %s' % nm, 'bad', '%s; %s:%s' % (where, os.path.basename(o[0][1].file or ''),
                                                             o[0][1].line),
                        '%s stores to the global %s without protection' % (o[0][0].name, o[0][2]))
                else:
                    add('call %s' % nm, 'ok', where, '')
        else:
            for i in calias.WRITES.get(nm, ()):
                if i < len(args):
                    locs = R.pointee(args[i])
                    if all(l[0] == 'private' for l in locs):
                        continue
                    v, t = R.judge(n, locs, ctx, 'stored by ' + nm)
                    if nm in ('gsl_matrix_set', 'gsl_vector_set') and v == 'bad' and ctx.loop is not None:
                        locs = [(k, b, p + [('sub', x) for x in args[1:-1]]) for k, b, p in locs]
                        v, t = R.judge(n, locs, ctx, 'stored by ' + nm)
                    add('call %s(%s)' % (nm, text(args[i])[:40]), v, where, t)
        # objects that change when they are used
        for a in args:
            ty = a.type or ''
            if not any(o in ty for o in ('gsl_interp_accel', 'gsl_rng', 'fitsfile',
                                         'gsl_integration_workspace', 'gsl_eigen_')) and \
                    not (nm in ('fftw_execute', 'fftwf_execute')):
                continue
            s = strip(a)
            if null(s):
                continue
            locs = R.pointee(a)
            if all(l[0] == 'private' for l in locs) or ctx.prot:
                continue
            if any(l[0] == 'unknown' for l in locs):
                add('object %s(%s)' % (nm, text(a)[:40]), 'unk', where, '')
                continue
            v, t = R.judge(n, locs, ctx, 'used by ' + nm)
            add('object %s(%s)' % (nm, text(a)[:40]), v, where,
                t and 'shared object changed by its use: ' + t)
    # nowait
    for d in R.nowait:
        wr = set()
        b = R.body(d)
        inside = set(id(x) for x in d.walk())
        for a in R.acc:
            if id(a.node) in inside:
                wr |= set((bb.refid, tuple(x for t, x in p if t == 'field'))
                          for kk, bb, p in R.locate(a.subs) if kk == 'shared' and bb is not None)
        later = [x for x in R.order if id(x) not in inside and x.line > d.line and
                 x.kind == 'DeclRefExpr' and x.refid in set(q for q, w in wr)]
        add('nowait', 'bad' if later else 'ok', '%s:%s' % (os.path.basename(d.file or ''), d.line),
            'stores of a loop without barrier are used later in the region' if later else '')
    return out


def check_rng(R):
    """random numbers drawn in a work-shared loop depend on the iteration only"""
    out = []
    for v, n in list(R.loops.items()):
        uses = []
        for c, ctx in R.calls:
            if ctx.loop != v:
                continue
            for a in c.ch[1:]:
                if 'gsl_rng' in (a.type or ''):
                    uses.append((c, ctx, strip(a)))
        if not uses or v not in set(ctx.loop for c, ctx, a in uses):
            continue
        rngs = set(a.refid for c, ctx, a in uses if a.kind == 'DeclRefExpr')
        for g in rngs:
            us = [(c, ctx) for c, ctx, a in uses if a.refid == g]
            name = [a.ref for c, ctx, a in uses if a.refid == g][0]
            where = '%s:%s' % (os.path.basename(us[0][0].file or ''), us[0][0].line)
            key = '%s:rng %s' % (R.f.name, name)
            inloop = [e for kd, e in R.defs.get(g, []) if kd == 'expr' and e is not None and
                      any(e is y for y in R.loops[v].ch[-1].walk())]
            sets = [(c, ctx) for c, ctx in us if strip(c.ch[0]).ref in ('gsl_rng_set',) or
                    (R.P.lookup(strip(c.ch[0]).ref or '', R.f.file) is not None and
                     sets_rng(R.P.lookup(strip(c.ch[0]).ref, R.f.file)))]
            first = us[0][0]
            if inloop:
                e = inloop[0]
                seed = e
            elif sets:
                seed = sets[0][0]
                if first is not seed or sets[0][1].inner and not us[0][1].inner:
                    out.append((key, 'bad', where, 'random numbers are drawn before the generator is set '
                                'for the iteration'))
                    continue
                if sets[0][1].conds:
                    out.append((key, 'unk', where, 'generator set under a condition'))
                    continue
            else:
                out.append((key, 'bad', where, 'the generator is not set for each iteration: its numbers '
                            'depend on how iterations are shared among threads'))
                continue
            args = seed.ch[2:] if seed.kind == 'CallExpr' and seed is not inloop else [seed]
            if any(R.threadid(x) for x in seed.walk()):
                out.append((key, 'bad', where, 'the seed depends on the thread'))
            elif not any(v in R.deps(x) for x in seed.ch[1:]):
                out.append((key, 'bad', where, 'the seed is the same in every iteration'))
            else:
                out.append((key, 'ok', where, ''))
    return out


def sets_rng(f):
    return f.body is not None and any(x.kind == 'CallExpr' and strip(x.ch[0]).ref == 'gsl_rng_set'
                                      for x in f.body.walk())
