"""Native memory: accesses stay inside their blocks, blocks are released once."""
from .common import *   # noqa
from .. import bounds
from ..bounds import MemEval, Sizes, Life
from ..fitsmodel import MODELS as FITS
from ..terms import and_, or_, not_, ONE, ZERO, TRUE, FALSE, sub

POS = ('nl', 'nx', 'ny', 'nb', 'lmax', 'lmm', 'nlb', 'nlb2', 'ncl', 'n', 'nlc', 'nside', 'nf')


def w3j(ev, args, n):
    """the symbols of (l, l) reach from zero to 2l"""
    if ev.st.alive:
        ev.note('write', ev.deref(ev.padd(args[-2], T.mul(T.num(2), args[0]))), 'double', n)
    return lemma.MODELS['drc3jj'](ev, args, n)


def mine(f):
    return f and not f.startswith(cfront.SPEC)


def use(P, name, cfg, models, undef=False):
    ev = MemEval(P, opaque=lemma.OPAQUE, models=models)
    ev.keep_undef = undef
    f = P.lookup(name)
    pos = [p.name for p in f.params if p.name in POS]
    pc = and_(*[T.lt(ZERO, T.sym(p, True)) for p in pos if p not in cfg])
    ev.run(name, {k: T.num(v) for k, v in cfg.items()}, pc=pc)
    ev.blocks = {}
    for b, (kind, args, n, loops, apc) in getattr(ev, 'allocinfo', {}).items():
        ev.blocks[b.args[2]] = (b, kind, args, loops)
    return ev, pos


RANK = {'ok': 0, 'und': 1, 'bad': 2}


def memory(P, name, cfg, models):
    key = keyof(name, cfg)
    ev, pos = use(P, name, cfg, models)
    S = Sizes(pos)
    out = {}
    for a in ev.acc:
        if not mine(a.file):
            continue
        for what, r, msg in bounds.judge(S, a, ev):
            if r == 'bad' and not bounds.reached(ev, a.pc, a.loops):
                r, msg = 'und', 'not known to be reached: ' + msg
            k = '%s:%s:%s:%s:%d' % (a.kind, what, a.func, os.path.basename(a.file or ''), a.line)
            old = out.get(k)
            if old is None or RANK[r] > RANK[old[0]]:
                out[k] = (r, a.where(), msg, ' > '.join(a.frames[1:]))
    obs = [Ob('%s/%s' % (key, k), {'ok': OK, 'und': UNK, 'bad': BAD}[r], w, m, 'bounds', {'path': fr})
           for k, (r, w, m, fr) in out.items()]
    return obs + lives(key, ev)


def lives(key, ev):
    if not ev.st.alive:
        return [Ob(key + '/life', UNK, msg='no normal return', rule='life')]
    L = Life(ev)
    out = []
    for e in ev.effects:
        if e.kind != 'alloc':
            continue
        uid = e.res.args[2]
        (file, line), fr = ev.by.get(uid, ((e.file, e.line), []))
        if not mine(file or e.file) or len(fr) < 2:
            continue
        w = '%s:%s' % (os.path.relpath(file or e.file, cfront.REPO), line)
        k = '%s/life:%s:%d' % (key, e.extra, uid)
        st, msg = life(ev, L, e, uid)
        out.append(Ob(k, st, w, msg, 'life', {'path': ' > '.join(fr[1:])}))
    return out


def life(ev, L, e, uid):
    fs = L.frees.get(uid, [])
    if e.pc is FALSE:
        return OK, ''
    if not fs:
        if L.odd:
            return UNK, 'a release could not be resolved'
        if bounds.reached(ev, e.pc, e.loops):
            return BAD, 'block obtained here (%s) is never released' % T.show(e.res)
        return UNK, ''
    kind = bounds.RELEASE.get(e.extra, str(e.extra).rstrip('0'))
    for f, pc, p in fs:
        if bounds.FREE.get(f.fn) != kind:
            return BAD, 'block obtained here is released by %s at %s' % (f.fn, f.where())
    # two releases of the same element
    res = None
    for i, (f, pc, p) in enumerate(fs):
        inner = [l for l in f.loops if l not in e.loops and l.sym not in T.free(p)]
        for l in inner:
            if l.known and not l.early and l.sym not in T.free(pc) and bounds.reached(ev, and_(pc, T.lt(T.add(l.lo, ONE), l.hi)), f.loops):
                return BAD, 'released in every iteration of a loop at %s' % f.where()
        for g, pd, q in fs[i + 1:]:
            both = and_(pc, pd)
            if both is FALSE:
                continue
            if p is q and not f.loops and not g.loops:
                if bounds.reached(ev, both, ()):
                    return BAD, 'released at %s and at %s' % (f.where(), g.where())
                res = UNK
            elif p is not q:
                a1, a2 = p.args[0].args[3:], q.args[0].args[3:]
                if not any(T.isnum(sub(x, y)) and not T.isnum(sub(x, y), 0) for x, y in zip(a1, a2)):
                    res = res or same(ev, f, g, p, q, both)
                    if res and res[0] == BAD:
                        return res
    # every element released
    live = and_(e.pc, ev.st.pc)
    cover = []
    for f, pc, p in fs:
        idx = p.args[0].args[3:]
        own = e.res.args[3:]
        ok = True
        m = {}
        for x, o in zip(idx, own):
            Lo = T.Loop.reg.get(o)
            if x is o:
                continue
            Lf = next((l for l in f.loops if l.sym is x), None)
            if Lf is None:
                ok = False      # one element, or a computed one
                break
            if not (T.isnum(sub(Lf.lo, Lo.lo), 0) and T.isnum(sub(Lf.hi, Lo.hi), 0)):
                d1, d2 = sub(Lf.lo, Lo.lo), sub(Lo.hi, Lf.hi)
                if len(fs) == 1 and ((T.isnum(d1) and T.cval(d1) > 0 and T.isnum(d2)) or
                                     (T.isnum(d2) and T.cval(d2) > 0 and T.isnum(d1))) and Lf.known and \
                        Lo.known and not Lf.early and not Lo.early and not Lo.soft and not Lf.soft:
                    return BAD, 'only the elements from %s to before %s of those obtained for %s to before %s ' \
                        'are released, at %s' % (T.show(Lf.lo), T.show(Lf.hi), T.show(Lo.lo), T.show(Lo.hi), f.where())
                ok = False
                break
            if Lf.early or not Lf.known:
                ok = False
            m[x] = o
        if not ok:
            return UNK, 'released for other elements at %s' % f.where()
        pc = T.subst(pc, m) if m else pc
        for l in f.loops:
            if l in e.loops or l.sym in m or l.sym not in T.free(pc):
                continue
            pc = some(pc, l)        # released in one of the iterations
            if pc is None:
                return UNK, 'released in some iterations at %s' % f.where()
        cover.append(pc)
    lost = and_(live, not_(or_(*cover)))
    if lost is FALSE or T.implies(live, or_(*cover)):
        return (UNK, 'may be released twice') if res else (OK, '')
    v, un = lemma.vocabulary(lost)
    if un:
        return UNK, 'unresolved: ' + ', '.join(sorted(un))[:200]
    r = bounds.reached(ev, lost, e.loops)
    if r:
        return BAD, 'block obtained here is not released if ' + T.show(lost)[:300]
    if r is None:
        return UNK, ''
    return (UNK, 'may be released twice') if res else (OK, '')


def some(pc, l):
    """the condition for pc to hold in an iteration of l"""
    if not l.known or l.early:
        return None
    if T.isnum(l.lo) and T.isnum(l.hi) and T.cval(l.hi) - T.cval(l.lo) <= 8:
        return or_(*[T.subst(pc, {l.sym: T.num(i)}) for i in range(int(T.cval(l.lo)), int(T.cval(l.hi)))])
    x = lemma.solved(pc).get(l.sym)
    if x is None:
        return None
    return and_(T.subst(pc, {l.sym: x}), T.le(l.lo, x), T.lt(x, l.hi))


def same(ev, f, g, p, q, both):
    return UNK, 'released twice?'


def uses(thorough):
    out = []

    def U(name, *cfgs):
        for c in cfgs:
            out.append((name, c))
    U('U_bins_create', dict(with_f=0), dict(with_f=1))
    U('U_bins', {})
    U('U_bins_flat', {})
    for s1, s2, f, teb in ((0, 0, 0, 0), (0, 2, 0, 0), (2, 2, 0, 0), (2, 2, 1, 0), (0, 2, 0, 1), (0, 2, 1, 1)):
        U('U_ws', dict(s1=s1, s2=s2, pe1=f if s1 else 0, pb1=0, pe2=0, pb2=f if s2 else 0, teb=teb))
    for s1, s2 in ((0, 0), (0, 2), (2, 2)):
        U('U_ws_use', dict(s1=s1, s2=s2))
    for a in ((0, 2, 0, 1), (2, 2, 1, 1), (2, 0, 1, 0)):
        U('U_ws_aniso', dict(s1=a[0], s2=a[1], an1=a[2], an2=a[3]))
    for s in ((0, 0, 0, 0), (0, 2, 2, 0)) + (((2, 2, 2, 2),) if thorough else ()):
        for n in ('U_covar', 'U_covar_coupled'):
            U(n, dict(sa=s[0], sb=s[1], sc=s[2], sd=s[3], spin0=0 if any(s) else 1))
    for s, nt, pe, pb, ma, li in ((0, -1, 0, 0, 0, 0), (0, 0, 0, 0, 0, 0), (0, 1, 0, 0, 1, 0), (2, 0, 0, 1, 0, 0),
                                  (2, 2, 1, 0, 0, 0), (2, 2, 1, 1, 1, 0), (2, 1, 0, 1, 0, 1), (1, 2, 0, 0, 0, 1),
                                  (2, -1, 0, 1, 0, 0)):
        U('U_field', dict(spin=s, nt=nt, pe=pe, pb=pb, masked=ma, lite=li))
    for s1, s2, f, teb, sm in ((0, 0, 0, 0, 1), (0, 2, 1, 0, 0), (2, 2, 0, 0, 1), (0, 2, 0, 1, 0)):
        U('U_ws_flat', dict(s1=s1, s2=s2, pe1=0, pb1=0, pe2=f, pb2=0, teb=teb, same=sm))
    for s1, s2, nt in ((0, 0, 0), (2, 0, 1), (0, 2, 2)):
        U('U_ws_flat_use', dict(s1=s1, s2=s2, nt=nt))
    for s1, s2, nt in ((0, 0, 0), (2, 0, 1)):
        U('U_pspec_flat', dict(s1=s1, s2=s2, nt=nt))
    U('U_covar_flat', dict(sa=0, sb=0, sc=0, sd=0), dict(sa=0, sb=2, sc=0, sd=0))
    for c2 in (0, 1, 2):
        U('U_apo', dict(c2=c2))
        U('U_apo_flat', dict(c2=c2))
    U('U_syn_flat', dict(nf=1, s1=0, s2=0), dict(nf=2, s1=0, s2=2))
    for un in (0, 1):
        U('U_io_ws', dict(s1=0, s2=2, un=un))
    U('U_io_flat', dict(s1=0, s2=0))
    U('U_io_cov', dict(spin0=0, force=0), dict(spin0=0, force=1), dict(spin0=1, force=0))
    U('U_io_cov_flat', dict(sa=0))
    return out


def check(c):
    P = program(c, True)
    c.rule('bounds', 'every access to a block of native memory, in the complete lives of native objects of '
           'spec/mem.c, lies inside the block, for all sizes')
    c.rule('life', 'every block obtained during those lives is released exactly once, by the function that belongs to '
           'the one that obtained it')
    M = dict(lemma.MODELS, drc3jj=w3j, drc3jj_000=w3j, **FITS)
    only = os.environ.get('ONLY')
    for n, cfg in uses(c.thorough):
        if only and not keyof(n, cfg).startswith(only):
            continue
        c.job(keyof(n, cfg), memory, P, n, cfg, M)
    c.floor = 0 if only else 2000
