"""Which memory C functions store into and keep, as flow-sensitive facts about pointers.

A fact (variable, path) says that the pointer stored at variable.path points into the input region
that is tracked; everything reachable from it belongs to the region.  Paths are made of '*' (indexing
or dereference) and '.member'.  Every fact is 'must' (on every path through the function, loops taken
at least once, null pointers aside) or 'may'."""
from .cfront import Node

CASTS = ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'ConstantExpr')
NULL = object()
MAXPATH = 5

# external routines that store through a pointer argument (positions)
WRITES = {'memcpy': (0,), 'memset': (0,), 'memmove': (0,), 'strcpy': (0,), 'strncpy': (0,),
          'sprintf': (0,), 'snprintf': (0,), 'fread': (0,), 'fgets': (0,), 'qsort': (0,),
          'realloc': (0,), 'gsl_matrix_set': (0,), 'gsl_vector_set': (0,), 'gsl_matrix_memcpy': (0,),
          'gsl_vector_memcpy': (0,), 'gsl_matrix_set_zero': (0,), 'gsl_matrix_set_all': (0,),
          'gsl_vector_set_zero': (0,), 'gsl_vector_set_all': (0,),
          'gsl_matrix_scale': (0,), 'gsl_matrix_add': (0,), 'gsl_linalg_LU_decomp': (0, 1, 2),
          'gsl_linalg_LU_solve': (3,), 'gsl_linalg_LU_svx': (2,), 'gsl_linalg_LU_invert': (2,),
          'gsl_permutation_init': (0,), 'fftw_execute_dft_r2c': (2,), 'fftw_execute_dft_c2r': (1, 2),
          'gsl_blas_dgemm': (6,), 'gsl_blas_dgemv': (5,), 'gsl_eigen_symmv': (0, 1, 2),
          'fits_read_pix': (6,), 'fits_read_col': (7,), 'fits_read_img': (6,), 'ffgpv': (6,),
          'ffgcv': (7,), 'ffgpxv': (6,)}
FREES = {'free': 0, 'fftw_free': 0, 'fftwf_free': 0, 'gsl_matrix_free': 0, 'gsl_vector_free': 0,
         'gsl_permutation_free': 0, 'realloc': 0}
# the result points into the argument
ALIASES = {'gsl_matrix_ptr': 0, 'gsl_matrix_row': 0, 'gsl_matrix_column': 0, 'gsl_vector_view_array': 0,
           'gsl_matrix_view_array': 0, 'gsl_matrix_view_vector': 0, 'gsl_vector_ptr': 0, 'strchr': 0,
           'gsl_matrix_submatrix': 0}


class Site(object):
    def __init__(self, node, fn, must, what):
        self.node, self.fn, self.must, self.what = node, fn, must, what

    def where(self):
        import os
        return '%s:%s (%s)' % (os.path.basename(self.node.file or ''), self.node.line, self.fn)


class Res(object):
    def __init__(self):
        self.sites = {}
        self.ret = {}
        self.out = {}
        self.visited = set()


def join(a, b):
    """facts of two branches; a null pointer on one side says nothing"""
    if a is None:
        return b
    if b is None:
        return a
    out = {}

    def null(s, k):
        return any(s.get((k[0], k[1][:i])) is NULL for i in range(len(k[1])))
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if x is None and null(a, k):
            x = NULL
        if y is None and null(b, k):
            y = NULL
        if x is NULL and y is NULL:
            out[k] = NULL
        elif x is NULL or y is NULL:
            out[k] = (y if x is NULL else x)
            if out[k] is None:
                del out[k]
        elif x is None or y is None:
            out[k] = False
        else:
            out[k] = x and y
    return {k: v for k, v in out.items() if v is not None}


class Alias(object):
    def __init__(self, P):
        self.P = P
        self.memo = {}

    # facts of one call: {(param index, path): must}
    def run(self, f, facts):
        key = (f.name, f.file, tuple(sorted(facts.items())))
        if key in self.memo:
            return self.memo[key]
        r = Res()
        self.memo[key] = r           # recursion: nothing found
        r.visited.add(f.name)
        w = Walk(self, f, r)
        st = {(f.params[i].id, p): m for (i, p), m in facts.items() if i < len(f.params)}
        end = w.stmt(f.body, st)
        end = join(end, w.retst)
        pid = {p.id: i for i, p in enumerate(f.params)}
        for (v, p), m in (end or {}).items():
            if v in pid and p[:1] == ('*',) and m is not NULL:
                r.out[(pid[v], p)] = m
            if isinstance(v, tuple) and v[0] == 'global' and m is not NULL:
                r.out[(v, p)] = m
        return r


class Walk(object):
    def __init__(self, A, f, r):
        self.A, self.P, self.f, self.r = A, A.P, f, r
        self.retst = None
        self.brk, self.cont = [], []

    # ---------------------------------------------------------------- places
    def strip(self, n):
        while n.kind in CASTS and n.ch:
            n = n.ch[-1]
        return n

    def place(self, n):
        """list of (variable, path) an lvalue or pointer expression denotes; value paths for pointers
        are those of the pointer itself"""
        n = self.strip(n)
        k = n.kind
        if k == 'DeclRefExpr':
            if n.refkind in ('VarDecl', 'ParmVarDecl'):
                if n.refkind == 'VarDecl' and n.refid not in self.locals:
                    return [(('global', n.ref), ())]
                return [(n.refid, ())]
            return []
        if k == 'MemberExpr':
            b = self.place(n.ch[0])
            return [(v, p + (('*',) if n.arrow else ()) + ('.' + (n.name or ''),)) for v, p in b]
        if k == 'ArraySubscriptExpr':
            a, i = n.ch[0], n.ch[1]
            if '*' not in (a.type or '') and '[' not in (a.type or ''):
                a = i
            return [(v, p + ('*',)) for v, p in self.place(a)]
        if k == 'UnaryOperator':
            if n.op == '*':
                return [(v, p + ('*',)) for v, p in self.place(n.ch[0])]
            if n.op == '&':
                b = self.strip(n.ch[0])
                r = []
                for v, p in self.place(b):
                    if p[-1:] == ('*',):
                        r.append((v, p[:-1]))
                    else:
                        r.append((v, p + ('&',)))
                return r
            if n.op in ('++', '--'):
                return self.place(n.ch[0])
            return []
        if k == 'BinaryOperator':
            if n.op in ('+', '-') and '*' in (n.type or ''):
                r = []
                for c in n.ch:
                    if '*' in (c.type or '') or '[' in (c.type or ''):
                        r += self.place(c)
                return r
            if n.op == ',':
                return self.place(n.ch[1])
            if n.op == '=':
                return self.place(n.ch[0])
            return []
        if k == 'CompoundAssignOperator':
            return self.place(n.ch[0])
        if k == 'ConditionalOperator':
            return self.place(n.ch[1]) + self.place(n.ch[2])
        if k in ('CallExpr',):
            return [(('call', n.id), ())]
        if k == 'StmtExpr':
            return []
        return []

    @staticmethod
    def norm(p):
        """'&' followed by '*' cancels"""
        out = []
        for x in p:
            if x == '*' and out and out[-1] == '&':
                out.pop()
            elif x == '.' and out and out[-1] == '&':
                out.append(x)
            else:
                out.append(x)
        return tuple(out[:MAXPATH + 3])

    def value(self, n, st):
        """facts of a value: {path: must}; path () means the value points into the region"""
        out = {}
        ps = [(v, self.norm(p)) for v, p in self.place(n)]
        null = self.isnull(n)
        if null:
            return NULL
        s = self.strip(n)
        if s.kind == 'ConditionalOperator':
            a, b = self.value(s.ch[1], st), self.value(s.ch[2], st)
            if a is NULL or b is NULL:
                return b if a is NULL else a
            return {k: bool(a.get(k) and b.get(k)) for k in set(a) | set(b)}
        for v, p in ps:
            for (u, q), m in st.items():
                if u != v or m is NULL:
                    continue
                if p[:len(q)] == q:
                    out[()] = out.get((), False) or m
                elif q[:len(p)] == p:
                    if p and p[-1] == '&':
                        continue
                    out[q[len(p):]] = m
                elif p[-1:] == ('&',) and q[:len(p) - 1] == p[:-1]:
                    out[('*',) + q[len(p) - 1:]] = m
        return out

    def isnull(self, n):
        n = self.strip(n)
        return n.kind == 'IntegerLiteral' and n.value == '0' or n.kind == 'GNUNullExpr'

    # ---------------------------------------------------------------- effects
    def site(self, n, must, what):
        k = (self.f.name, n.line, what)
        o = self.r.sites.get(k)
        if o is None or must and not o.must:
            self.r.sites[k] = Site(n, self.f.name, must, what)

    def stored(self, lhs, n, st):
        """a store to the lvalue"""
        for v, p in self.place(lhs):
            p = self.norm(p)
            for (u, q), m in st.items():
                if u == v and m is not NULL and len(p) > len(q) and p[:len(q)] == q and \
                        '*' in p[len(q):]:
                    self.site(n, m and len(self.place(lhs)) == 1, 'store')

    def assign(self, lhs, val, st, strong=True):
        ps = [(v, self.norm(p)) for v, p in self.place(lhs)]
        for v, p in ps:
            # old contents are replaced; elements of arrays as well (every element is assumed set)
            if strong and len(ps) == 1:
                for k in [k for k in st if k[0] == v and k[1][:len(p)] == p]:
                    del st[k]
            if val is NULL:
                if not any(k[0] == v and k[1][:len(p)] == p for k in st):
                    st[(v, p)] = NULL
                continue
            for q, m in (val or {}).items():
                r = self.norm(p + q)
                if len(r) <= MAXPATH:
                    st[(v, r)] = m and len(ps) == 1

    # ---------------------------------------------------------------- expressions
    def expr(self, n, st):
        if n is None:
            return
        k = n.kind
        if k == 'BinaryOperator' and n.op == '=':
            self.expr(n.ch[1], st)
            self.sub(n.ch[0], st)
            self.stored(n.ch[0], n, st)
            if '*' in (n.ch[0].type or '') or 'struct' in (n.ch[0].type or '') or \
                    self.P.records.get((n.ch[0].aux or '')) is not None:
                self.assign(n.ch[0], self.value(n.ch[1], st), st)
            return
        if k == 'CompoundAssignOperator':
            self.expr(n.ch[1], st)
            self.sub(n.ch[0], st)
            self.stored(n.ch[0], n, st)
            return
        if k == 'UnaryOperator' and n.op in ('++', '--'):
            self.sub(n.ch[0], st)
            self.stored(n.ch[0], n, st)
            return
        if k == 'CallExpr':
            self.call(n, st)
            return
        if k == 'UnaryExprOrTypeTraitExpr':
            return
        if k == 'BinaryOperator' and n.op in ('&&', '||'):
            self.expr(n.ch[0], st)
            s = dict(st)
            self.expr(n.ch[1], s)
            j = join(st, s)
            st.clear()
            st.update(j)
            return
        if k == 'ConditionalOperator':
            self.expr(n.ch[0], st)
            a, b = dict(st), dict(st)
            self.expr(n.ch[1], a)
            self.expr(n.ch[2], b)
            j = join(a, b)
            st.clear()
            st.update(j)
            return
        if k == 'StmtExpr':
            for c in n.ch:
                self.stmt(c, st)
            return
        for c in n.ch:
            self.expr(c, st)

    def sub(self, n, st):
        """side effects of computing an lvalue"""
        for c in n.ch:
            self.expr(c, st)

    def call(self, n, st):
        args = n.ch[1:]
        for a in args:
            self.expr(a, st)
        c = self.strip(n.ch[0])
        name = c.ref if c.kind == 'DeclRefExpr' else None
        vals = [self.value(a, st) for a in args]
        for k in [k for k in st if k[0] == ('call', n.id)]:
            del st[k]
        g = self.P.lookup(name, self.f.file) if name else None
        if g is not None and g.body is not None:
            facts = {}
            for i, v in enumerate(vals):
                if v is NULL or not v:
                    continue
                for q, m in v.items():
                    facts[(i, q)] = m
            if not facts:
                return
            r = self.A.run(g, facts)
            self.r.visited |= r.visited
            for k, s in r.sites.items():
                o = self.r.sites.get(k)
                if o is None or s.must and not o.must:
                    self.r.sites[k] = s
            for q, m in r.ret.items():
                st[(('call', n.id), q)] = m
            for (i, q), m in r.out.items():
                if isinstance(i, tuple):
                    st[(i, q)] = m
                    continue
                if (i, q) in facts or i >= len(args):
                    continue
                for v, p in self.place(args[i]):
                    rr = self.norm(self.norm(p) + q)
                    if len(rr) <= MAXPATH and (v, rr) not in st:
                        st[(v, rr)] = m
            return
        if name is None:
            return
        for i in WRITES.get(name, ()):
            if i < len(vals) and vals[i] is not NULL and vals[i].get(()) is not None:
                self.site(n, vals[i][()], 'store by ' + name)
        if name in FREES:
            v = vals[FREES[name]] if len(vals) > FREES[name] else {}
            if v is not NULL and v.get(()) is not None:
                self.site(n, v[()], 'release by ' + name)
        if name in ALIASES and vals and vals[ALIASES[name]] is not NULL:
            for q, m in vals[ALIASES[name]].items():
                st[(('call', n.id), q)] = m
        if name == 'memcpy' and len(vals) > 1 and vals[1] is not NULL:
            # a copied array of pointers holds the same pointers
            for q, m in vals[1].items():
                if q[:1] == ('*',):
                    for v, p in self.place(args[0]):
                        rr = self.norm(self.norm(p) + q)
                        if len(rr) <= MAXPATH:
                            st[(v, rr)] = m

    # ---------------------------------------------------------------- statements
    @property
    def locals(self):
        if not hasattr(self, '_loc'):
            self._loc = set(x.id for x in self.f.node.walk() if x.kind in ('VarDecl', 'ParmVarDecl')
                            and x.cast not in ('extern', 'static'))
        return self._loc

    def stmt(self, n, st):
        """returns the state after the statement, or None"""
        if n is None or st is None:
            return st
        k = n.kind
        if k == 'CompoundStmt':
            for c in n.ch:
                st = self.stmt(c, st)
                if st is None:
                    return None
            return st
        if k == 'DeclStmt':
            for d in n.ch:
                if d.kind == 'VarDecl' and d.ch:
                    i = d.ch[-1]
                    self.expr(i, st)
                    if '*' in (d.type or '') or 'struct' in (d.type or '') or d.aux in self.P.records:
                        v = self.value(i, st)
                        for q in [q for q in st if q[0] == d.id]:
                            del st[q]
                        if v is NULL:
                            st[(d.id, ())] = NULL
                        else:
                            for q, m in (v or {}).items():
                                st[(d.id, q)] = m
            return st
        if k == 'IfStmt':
            self.expr(n.ch[0], st)
            a = self.stmt(n.ch[1], dict(st))
            b = self.stmt(n.ch[2], dict(st)) if len(n.ch) > 2 else dict(st)
            return join(a, b)
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            return self.loop(n, st)
        if k == 'SwitchStmt':
            self.expr(n.ch[0], st)
            self.brk.append([])
            out = self.stmt(n.ch[-1], dict(st))
            for s in self.brk.pop():
                out = join(out, s)
            return join(out, dict(st))
        if k in ('CapturedStmt', 'CapturedDecl'):
            return self.stmt(n.ch[0], st)
        if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt', 'AttributedStmt'):
            for c in n.ch:
                if c.kind.endswith('Stmt') or c is n.ch[-1]:
                    st = self.stmt(c, st)
            return st
        if k.startswith('OMP'):
            for c in n.ch:
                if c.kind.endswith('Stmt') or c.kind.endswith('Directive'):
                    st = self.stmt(c, st)
            return st
        if k == 'ReturnStmt':
            if n.ch:
                self.expr(n.ch[0], st)
                v = self.value(n.ch[0], st)
                if v is not NULL and '*' in (n.ch[0].type or '') + self.f.rtype:
                    for q, m in v.items():
                        self.r.ret[q] = m and self.r.ret.get(q, True)
            self.retst = join(self.retst, st)
            return None
        if k == 'BreakStmt':
            if self.brk:
                self.brk[-1].append(st)
            return None
        if k == 'ContinueStmt':
            if self.cont:
                self.cont[-1].append(st)
            return None
        if k == 'GotoStmt':
            return None
        if k in ('NullStmt', 'ImplicitParamDecl', 'RecordDecl', 'VarDecl', 'TypedefDecl', 'ParmVarDecl'):
            return st
        self.expr(n, st)
        return st

    def loop(self, n, st):
        if n.kind == 'ForStmt':
            init, cond, inc, body = n.ch[0], n.ch[-3], n.ch[-2], n.ch[-1]
            if init.kind != '<null>' and init.kind:
                st = self.stmt(init, st) if init.kind.endswith('Stmt') else (self.expr(init, st), st)[1]
        elif n.kind == 'WhileStmt':
            cond, inc, body = n.ch[0], None, n.ch[-1]
        else:
            cond, inc, body = n.ch[-1], None, n.ch[0]
        for it in range(3):
            s = dict(st)
            if cond is not None:
                self.expr(cond, s)
            self.brk.append([])
            self.cont.append([])
            e = self.stmt(body, s)
            for x in self.cont.pop():
                e = join(e, x)
            bs = self.brk.pop()
            if e is not None and inc is not None:
                self.expr(inc, e)
            out = e
            for x in bs:
                out = join(out, x)
            if e is None:
                return out
            nxt = dict(e)
            for k2, m in st.items():
                nxt.setdefault(k2, False if k2 not in e else e[k2])
            if nxt == st:
                break
            st = nxt
        return out


def native_inputs(P, wraps):
    """(wrapper, argument, sites, kept) for every input array and object of the native interface"""
    A = Alias(P)
    out = []
    for name, w in sorted(wraps.items()):
        f = P.lookup(w.cname)
        if f is None or f.body is None:
            continue
        pi = {p.name: i for i, p in enumerate(f.params)}
        for a in w.args:
            if a.kind == 'handle' and a.ctype not in P.records or a.kind not in ('array', 'handle') or \
                    a.name not in pi:
                continue
            i = pi[a.name]
            r = A.run(f, {(i, ()): True})
            kept = [('the result' if k == 'ret' else str(k), q, m) for k, q, m in
                    [('ret', q, m) for q, m in r.ret.items()] +
                    [(f.params[k[0]].name if isinstance(k[0], int) else k[0][1], k[1], m)
                     for k, m in r.out.items() if k[0] != i]]
            out.append((w, a, f, list(r.sites.values()), kept, sorted(r.visited)))
    return out
