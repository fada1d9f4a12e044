"""Native memory, from value-flow summaries: bounds of accesses, and lives of blocks.

Every load and store of a summary is recorded with its symbolic address, the loops around it and the
condition it is reached under. The address is compared with the size the block was allocated with:
loop indices are replaced by the ends of their ranges (the address is monotone in them) and the
difference is decided as a polynomial over sizes that are positive. Blocks are followed from their
allocation to the calls that release them."""
import re
from . import cfront
from . import terms as T
from .terms import num, sub, add, div, and_, or_, not_, ZERO, ONE
from .ceval import CEval, FREE

SIZES = {'double': 8, 'flouble': 8, 'int': 4, 'float': 4, 'long': 8, 'char': 1, 'fcomplex': 16,
         '_Complex double': 16, 'double complex': 16, 'size_t': 8, 'long long': 8,
         'unsigned int': 4, 'unsigned long': 8}
# release function of each kind of block
RELEASE = {'malloc': 'malloc', 'malloc0': 'malloc', 'fftw': 'fftw'}


def sizeof(t):
    t = (t or '').replace('const ', '').strip()
    if t in SIZES:
        return num(SIZES[t])
    if t.endswith('*'):
        return num(8)
    if not t or '[' in t or '(' in t:
        return None
    return T.sym('sizeof(%s)' % t, True)


class Access(object):
    __slots__ = ('kind', 'base', 'steps', 'pc', 'loops', 'file', 'line', 'func', 'type', 'seq', 'frames')

    def where(self):
        f = self.file or ''
        from . import cfront
        if f.startswith(cfront.REPO):
            f = f[len(cfront.REPO):].lstrip('/')
        return '%s:%s (%s)' % (f, self.line, self.func)


class MemEval(CEval):
    """records the accesses of a summary"""

    def __init__(self, *a, **k):
        CEval.__init__(self, *a, **k)
        self.acc = []
        self.raw = []
        self.dims = {}
        self.by = {}

    def alloc(self, kind, args, n, name):
        r = CEval.alloc(self, kind, args, n, name)
        fr = [f for f in self.frames if f.call is not None]
        # the innermost call that is not made by an allocator of the library
        at = (n.file, n.line)
        for f in reversed(fr):
            if not f.func.name.endswith(('malloc', 'calloc')):
                break
            at = (f.call.file, f.call.line)
        self.by[r.args[0].args[2]] = (at, [f.func.name for f in self.frames])
        return r

    def vardecl(self, d):
        CEval.vardecl(self, d)
        t = d.type or ''
        if t.endswith(']'):
            v = self.st.env.get((self.frames[-1].id, d.id))
            n = re.findall(r'\[(\d+)\]', t)
            if v is not None and v.op == 'ptr' and n and t.count('[') == len(n):
                self.dims[v.args[0]] = [num(int(x)) for x in n]

    def note(self, kind, loc, typ, node):
        if self.quiet or not self.st.alive:
            return
        b, s = loc
        if b.op != 'obj' or b.args[0] not in ('alloc', 'var') or not s:
            return
        a = Access()
        a.kind, a.base, a.steps = kind, b, tuple(s)
        a.pc, a.loops = self.st.pc, tuple(self.loops)
        fr = self.frames[-1]
        a.func = fr.func.name
        a.frames = [f.func.name for f in self.frames]
        a.file = (node.file if node is not None and node.file else fr.func.file)
        a.line = node.line if node is not None else 0
        a.type = typ
        self.seq += 1
        a.seq = self.seq
        self.acc.append(a)

    def load(self, loc, typ, node=None):
        self.note('read', loc, typ, node)
        v = CEval.load(self, loc, typ, node)
        if self.keep_undef and not self.quiet and self.st.alive and isinstance(v, T.Term):
            for c, x in pieces(v):
                if x.op == 'fn' and x.args[0] == 'undef':
                    b = x.args[1][0].args[0]
                    if b.args[:3] != loc[0].args[:3] and (b.args[0] != 'alloc' or not self.native(b.args[2])):
                        continue        # a copy of something the caller gave
                    fr = self.frames[-1]
                    self.raw.append((x.args[1][0], and_(self.st.pc, c), tuple(self.loops), node,
                                     [f.func.name for f in self.frames], fr.func.file, len(self.acc),
                                     loc[0].args[2] if loc[0].args[0] == 'alloc' else None))
        return v

    def load_g(self, loc, typ, n):
        b, s = loc
        if not (b.op == 'obj' and b.args[0] == 'gated') or not self.st.alive:
            return CEval.load_g(self, loc, typ, n)
        pc0 = self.st.pc

        def go(q, c):
            if q.op == 'ite':
                return T.ite(q.args[0], go(q.args[1], and_(c, q.args[0])), go(q.args[2], and_(c, not_(q.args[0]))))
            if q.op == 'ptr':
                self.st.pc = and_(pc0, c)
                if self.st.pc is T.FALSE:
                    return T.fn('badptr', (q,))
                return self.load((q.args[0], q.args[1] + s), typ, n)
            return T.fn('badptr', (q,))
        try:
            return go(b.args[1], T.TRUE)
        finally:
            self.st.pc = pc0

    def default(self, base, steps, isint, isptr):
        if base.op == 'obj' and base.args[0] == 'alloc' and not isptr and base.args[1] == 'malloc' and \
                self.init.get((base, tuple(steps))) is None:
            fr = self.by.get(base.args[2])
            if fr and not self.native(base.args[2]) and 'results' not in fr[1]:
                return T.fn('data', (T.ptr(base, steps),), isint)
        return CEval.default(self, base, steps, isint, isptr)

    def native(self, uid):
        at = self.by.get(uid, ((None, 0), []))[0][0]
        return at and not at.startswith(cfront.SPEC)

    def copied(self, val, node):
        """a plain copy does not use what it copies: the element written takes it over"""
        if not self.raw or node is None or not isinstance(val, T.Term):
            return
        ps = [x.args[1][0] for c, x in pieces(val) if x.op == 'fn' and x.args[0] == 'undef']
        names = [f.func.name for f in self.frames]
        while self.raw:
            p, c, loops, n, fr, f, k, u = self.raw[-1]
            if n is None or n.line != node.line or fr != names or not any(p is x for x in ps):
                break
            self.raw.pop()

    def store(self, loc, val, node, op='='):
        if self.keep_undef and op == '=' and loc[0].args[0] == 'alloc':
            self.copied(val, node)
        typ = None
        if node is not None:
            if node.kind in ('BinaryOperator', 'CompoundAssignOperator'):
                typ = node.ch[0].type
            elif node.kind == 'UnaryOperator':
                typ = node.type
            elif node.kind == 'CallExpr' and len(node.ch) > 1:
                typ = self.elemsize(node.ch[1])[1]
                for x in node.ch[1:3] if typ == 'fitsfile' else ():
                    k = x
                    while k.ch and k.kind != 'IntegerLiteral':
                        k = k.ch[-1]
                    typ = {'31': 'int', '82': 'double', '42': 'float'}.get(str(getattr(k, 'value', None)), typ)
        self.note('write', loc, typ, node)
        return CEval.store(self, loc, val, node, op)


# ------------------------------------------------------------------ polynomials over sizes
class Sizes(object):
    """decisions about polynomials, given symbols that are at least one and atoms that are at least
    zero"""

    def __init__(self, pos):
        self.extra = set()
        self.shift = {T.sym(p, True): add(T.sym(p, True), ONE) for p in pos}

    def poly(self, t):
        m = {s: v for s, v in self.shift.items() if s in T.free(t)}
        return T._poly(T.subst(t, m) if m else t)

    def nonpos(self, t):
        return all(c <= 0 for c in self.poly(t).values())

    def nonneg(self, t):
        return all(c >= 0 for c in self.poly(t).values())

    def positive(self, t):
        p = self.poly(t)
        return p.get((), 0) >= 1 and all(c >= 0 for c in p.values()) and \
            all(self.size(x) for m in p for x, k in m)

    def size(self, x):
        """an atom that is known not to be negative"""
        return x in self.shift or x in self.extra or (
            x.op == 'sym' and str(x.args[0]).startswith('sizeof(')) or \
            (x.op == 'idiv' and T.isnum(x.args[1]) and T.cval(x.args[1]) > 0 and self.nonneg(x.args[0]) and
             all(self.size(y) for m in self.poly(x.args[0]) for y, k in m))

    def relax(self, t, syms):
        """(something at least as large that is easier, is it the same for some sizes)"""
        exact = True
        for _ in range(6):
            new = ZERO
            again = False
            for m, c in T._poly(t).items():
                f = [x for x, k in m for _k in range(int(k))] if all(k > 0 for x, k in m) else None
                q = None
                for x in (f or ()):
                    if x.op == 'idiv' and x.args[1] in f:
                        rest = list(f)
                        rest.remove(x)
                        rest.remove(x.args[1])
                        q = x.args[0] if c > 0 else sub(add(x.args[0], ONE), x.args[1])
                        for y in rest:
                            q = T.mul(q, y)
                        break
                    if c < 0 and (T.free(x) & syms) and x not in syms and low(x):
                        q = ZERO
                        exact = False
                        break
                if q is None:
                    q = ONE
                    for x, k in m:
                        for _k in range(abs(int(k))):
                            q = T.mul(q, x) if k > 0 else div(q, x)
                else:
                    again = True
                new = add(new, T.mul(num(c), q))
            t = new
            if not again:
                break
        return t, exact

    def sign(self, t):
        p = self.poly(t)
        if not p:
            return 0
        if all(c > 0 for c in p.values()):
            return 1
        if all(c < 0 for c in p.values()):
            return -1
        return None


def low(x):
    """never negative"""
    return x.op == 'abs' or (x.op == 'fn' and x.args[0] in ('abs', 'sqrt')) or \
        (x.op in ('out', 'fn') and 'lmin' in str(x.args[0])) or (x.op == 'out' and 'lmin' in T.show(x)[:20])


def extreme(S, t, loops, up):
    """(largest or smallest value of t over the loops, exact) or None"""
    r = extreme1(S, t, loops, up, False)
    if up and (r is None or not S.nonpos(r[0])):
        q = extreme1(S, t, loops, up, True)
        if q is not None and (r is None or S.nonpos(q[0]) or not S.positive(r[0])):
            r = q
    return r


def extreme1(S, t, loops, up, soft):
    exact = True
    syms = [l.sym for l in loops]
    for _ in range(12):
        if soft:
            t, ex = S.relax(t, set(syms))
            exact = exact and ex
        here = [s for s in T.free(t) if s in syms]
        if not here:
            return t, exact
        s = max(here, key=syms.index)
        if any(a is not s and s in T.free(a) for m in T._poly(t) for a, k in m):
            return None
        c = sub(T.subst(t, {s: add(s, ONE)}), t)
        if s in T.free(c):
            return None
        g = S.sign(c)
        if g is None:
            return None
        L = loops[syms.index(s)]
        if L.lo is None or L.hi is None:
            return None
        v = sub(L.hi, ONE) if (up if g > 0 else not up) else L.lo
        exact = exact and L.known and not L.early and not L.soft
        t = T.subst(t, {s: v})
    return None


def atmost(pc):
    """linear terms that are not negative where pc holds"""
    out = []
    for c in T.conj(pc):
        neg = False
        if c.op == 'not':
            neg, c = True, c.args[0]
        if c.op == 'lt0' and c.args[0].isint:
            out.append(c.args[0] if neg else sub(ZERO, add(c.args[0], ONE)))
        elif c.op == 'eq0' and not neg:
            out += [c.args[0], sub(ZERO, c.args[0])]
    return out


class Range(object):
    def __init__(self, l, m):
        self.sym, self.known, self.early, self.soft = l.sym, l.known, l.early, l.soft
        self.lo = T.subst(l.lo, m) if l.lo is not None else None
        self.hi = T.subst(l.hi, m) if l.hi is not None else None


def choice(S, ts):
    for t in ts:
        if t is None:
            continue
        for x in T.subterms(t):
            if x.op in ('max', 'min') and len(x.args) == 2 and all(a in S.shift or a in S.extra for a in x.args):
                return x
    return None


def upper(S, D, loops, pc):
    """is D <= 0 everywhere ('ok'), above it somewhere ('bad'), or unknown; D integer. The larger of
    two sizes is either of them."""
    x = choice(S, [D] + [v for l in loops for v in (l.lo, l.hi)])
    if x is None:
        return upper1(S, D, loops, pc)
    res = []
    a, b = x.args
    for p, q in ((a, b), (b, a)):
        e = T.sym('excess%d' % len(S.extra), True)
        S.extra.add(e)
        m = {p: add(q, e)}
        m[x] = m[p] if x.op == 'max' else q
        r = upper(S, T.subst(D, m), [Range(l, m) for l in loops], T.subst(pc, m))
        S.extra.discard(e)
        res.append(r)
    return max(res, key=lambda r: ('ok', 'und', 'bad').index(r[0]))


def upper1(S, D, loops, pc):
    e = extreme(S, D, loops, True)
    if e is not None and S.nonpos(e[0]):
        return 'ok', ''
    gs = atmost(pc)
    for g in gs:
        x = extreme(S, add(D, g), loops, True)
        if x is not None and S.nonpos(x[0]):
            return 'ok', ''
    for i, g in enumerate(gs):
        for h in gs[i + 1:]:
            x = extreme(S, add(D, g, h), loops, True)
            if x is not None and S.nonpos(x[0]):
                return 'ok', ''
    if e is None:
        return 'und', ''
    mine = set(T.free(D))
    if any(mine & T.free(l.lo) or mine & T.free(l.hi) for l in loops):
        pass
    rel = [g for g in gs if mine & set(T.free(g)) & set(l.sym for l in loops)]
    other = [c for c in T.conj(pc) if mine & set(T.free(c)) & set(l.sym for l in loops)]
    if not other and S.positive(e[0]) and e[1]:
        return 'bad', T.show(e[0])
    ls = [l for l in loops if l.sym in mine]
    if len(ls) == 1 and len(other) == len(rel) == 1 and e[1] and S.positive(e[0]):
        # one index, one more limit on it: the smaller of the two ends is reached
        l, g = ls[0], rel[0]
        cg = sub(T.subst(g, {l.sym: add(l.sym, ONE)}), g)
        cd = sub(T.subst(D, {l.sym: add(l.sym, ONE)}), D)
        if T.isnum(cg, -1) and T.isnum(cd, 1):
            x = extreme(S, add(D, g), [q for q in loops if q is not l], True)
            if x is not None and x[1] and S.positive(x[0]):
                return 'bad', T.show(x[0])
    return 'und', T.show(e[0])


def judge(S, a, ev):
    """[(what, status, message)] of one access"""
    dims = []
    if a.base.args[0] == 'var':
        n = ev.dims.get(a.base)
        ii = [s[1] for s in a.steps if s[0] == 'i']
        if n is None or len(ii) < len(n):
            return []
        dims = list(zip(ii, n))
    else:
        info = ev.blocks.get(a.base.args[2])
        if info is None:
            return []
        b0, kind, args, loops = info
        m = {x: y for x, y in zip(b0.args[3:], a.base.args[3:]) if x is not y}
        args = [T.subst(t, m) if m and isinstance(t, T.Term) else t for t in args]
        ii = [s[1] for s in a.steps if s[0] == 'i']
        if kind.startswith('gsl_matrix') and len(args) >= 2:
            if len(ii) < 2 or ('f', 'data') not in a.steps:
                return []
            dims = list(zip(ii[-2:], args[:2]))
        elif (kind.startswith('gsl_vector') or kind.startswith('gsl_permutation')) and args:
            if not ii or ('f', 'data') not in a.steps:
                return []
            dims = [(ii[-1], args[0])]
        elif kind.startswith('malloc') or kind == 'fftw':
            if a.steps[0][0] != 'i':
                return []
            es = sizeof(a.type) if len(a.steps) == 1 else None
            if len(a.steps) > 1:
                for mo in T._poly(args[0]):
                    for x, k in mo:
                        if x.op == 'sym' and str(x.args[0]).startswith('sizeof('):
                            es = x
            if es is None:
                return [('size', 'und', 'size of the element unknown')]
            dims = [(a.steps[0][1], div(args[0], es))]
        else:
            return []
    out = []
    for idx, n in dims:
        r, w = upper(S, sub(add(idx, ONE), n), a.loops, a.pc)
        out.append(('end', r, w and 'index %s of a block of %s elements: beyond its end by %s' % (
            T.show(idx), T.show(n), w)))
        r, w = upper(S, sub(ZERO, idx), a.loops, a.pc)
        out.append(('start', r, w and 'index %s is negative' % T.show(idx)))
    return out


def reached(ev, pc, loops):
    """is there an interpretation in which this is reached?"""
    rng = [x for l in loops for x in (T.le(l.lo, l.sym), T.lt(l.sym, l.hi))]
    try:
        o, n = T.equiv(T.ite(and_(pc, *rng), ONE, ZERO), ZERO, tries=60)
    except Exception:
        return None
    return o is False


# ------------------------------------------------------------------ lives of blocks
def pieces(t, c=T.TRUE):
    """(condition, pointer) of a gated pointer"""
    if t.op == 'ite':
        return pieces(t.args[1], and_(c, t.args[0])) + pieces(t.args[2], and_(c, not_(t.args[0])))
    return [(c, t)]


class Life(object):
    def __init__(self, ev):
        self.ev = ev
        self.frees = {}      # uid -> [(effect, condition, object)]
        self.odd = []        # releases of what is not known
        for e in ev.effects:
            if e.kind != 'free':
                continue
            for c, p in pieces(e.val):
                pc = and_(e.pc, c)
                if pc is T.FALSE or T.isnum(p, 0):
                    continue
                if p.op == 'ptr' and p.args[0].op == 'obj' and p.args[0].args[0] == 'alloc':
                    self.frees.setdefault(p.args[0].args[2], []).append((e, pc, p))
                elif p.op == 'ptr' and p.args[0].op == 'obj' and p.args[0].args[0] in ('var', 'param'):
                    pass
                else:
                    self.odd.append((e, p))
