"""The factorised binned matrix always belongs to the current unbinned matrix, beams and bins."""
from .common import *   # noqa
from .pyset import *   # noqa
from ..ceval import CEval, Frame
from ..terms import and_, implies, TRUE


def lu_state(P, entry, cfg, gb, gp, target, models=lemma.MODELS, name=None):
    """Typestate: after the last store into the binned matrix, and before the function returns,
    that matrix is factorised into the permutation of the same workspace."""
    cf = {k: T.num(v) for k, v in cfg.items()}
    ev = CEval(P, opaque=lemma.OPAQUE, models=models)
    r = ev.run(entry, cf)
    f = P.lookup(entry)
    ev.frames = [ev.base_frame]
    w = r if target is None else ev.param([p for p in f.params if p.name == target][0])
    M = ev.call_function(P.lookup(gb), [w], None)
    p = ev.call_function(P.lookup(gp), [w], None)
    key = name or entry
    if M.op != 'ptr':
        return Ob(key, UNK, msg='binned matrix not resolved', rule='lu')
    loc = ev.gslloc(M, [])
    stores = [e for e in ev.effects if e.kind == 'store' and e.loc[0] is loc[0] and
              tuple(e.loc[1][:len(loc[1])]) == tuple(loc[1])]
    lus = [e for e in ev.effects if e.kind == 'call' and e.fn == 'gsl_linalg_LU_decomp']
    mine = [e for e in lus if e.args[0] is M]
    unres = [e for e in lus if e.args[0].op not in ('ptr',)]
    unk = [e for e in ev.effects if e.kind == 'call' and e.fn not in
           ('gsl_linalg_LU_decomp',) and any(a is M for a in getattr(e, 'args', ())) and
           not e.fn.startswith('gsl_matrix_get')]
    d = {'stores': [e.where() for e in stores], 'factorisations': [e.where() for e in mine]}
    if not stores:
        if unk:
            return Ob(key, UNK, msg='matrix written by %s' % unk[0].fn, rule='lu', data=d)
        return Ob(key, BAD, P.lookup(entry).file + ':%d' % f.line,
                  'the binned matrix is not recomputed', 'lu', d)
    last = max(e.seq for e in stores)
    good = [e for e in mine if e.seq > last]
    if not good:
        if unres or unk:
            return Ob(key, UNK, msg='factorisation not resolved', rule='lu', data=d)
        return Ob(key, BAD, stores[-1].where(),
                  'the binned matrix is written and not factorised afterwards', 'lu', d)
    if any(and_(x.pc, y.pc) is not T.FALSE for x in good for y in good if x is not y):
        return Ob(key, BAD, good[-1].where(), 'the binned matrix is factorised twice', 'lu', d)
    g = good[0]
    if g.args[1] is not p:
        return Ob(key, BAD if g.args[1].op == 'ptr' and p.op == 'ptr' else UNK, g.where(),
                  'factorised into a permutation that is not the one of the workspace', 'lu', d)
    if len(good) > 1:
        return Ob(key, UNK, g.where(), 'factorised on several paths', 'lu', d)
    for e in stores:
        ctx = and_(e.pc, *[T.constraints(l) for l in e.loops if l.known])
        for x in T.conj(g.pc):
            if x in T.conj(e.pc) or implies(ctx, x):
                continue
            if not all(plain(y) for y in atoms(x)):
                return Ob(key, UNK, g.where(), 'factorisation is conditional', 'lu', d)
            return Ob(key, BAD, g.where(), 'the binned matrix is written but factorised only if '
                      + T.show(x), 'lu', d)
    return Ob(key, OK, g.where(), '', 'lu', d)


def atoms(t):
    return [x for x in T.subterms(t) if x.op in ('load', 'sym', 'fn')]


def plain(x):
    """an integer member of an argument"""
    return x.isint and (x.op == 'load' and not x.args[2] or x.op == 'sym' and '#' not in x.args[0])


def pairs(P, c):
    """every use of a factorised matrix takes the permutation of the same workspace"""
    n = 0
    for f in sorted(set(P.funcs.values()), key=lambda f: (f.file, f.name)):
        if f.file.startswith(cfront.SPEC) or f.body is None:
            continue
        for x in f.body.walk():
            if x.kind != 'CallExpr':
                continue
            nm = next((y.ref for y in x.ch[0].walk() if y.kind == 'DeclRefExpr'), None)
            if nm not in ('gsl_linalg_LU_solve', 'gsl_linalg_LU_invert', 'gsl_linalg_LU_decomp'):
                continue
            n += 1
            a = [owner(y) for y in x.ch[1:3]]
            key = 'pair:%s:%s:%s' % (f.name, nm, a[0])
            where = '%s:%d' % (os.path.basename(f.file), x.line)
            if a[0] is None or a[1] is None:
                c.add(key, UNK, where, 'matrix or permutation is not a member', 'pair')
            elif a[0] != a[1]:
                c.add(key, BAD, where, 'matrix of %s used with the permutation of %s' %
                      (a[0], a[1]), 'pair')
            else:
                c.add(key, OK, where, '', 'pair')
    c.note('lu_call_sites', n)


def owner(x):
    """the declaration a member expression v->member belongs to"""
    while x.kind in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and x.ch:
        x = x.ch[-1]
    if x.kind == 'MemberExpr':
        b = x.ch[0]
        while b.kind in ('ImplicitCastExpr', 'ParenExpr') and b.ch:
            b = b.ch[-1]
        if b.kind == 'DeclRefExpr':
            return b.ref
    return None


def check(c):
    P = program(c, True)
    need(P, 'nmt_update_coupling_matrix', 'nmt_workspace_update_beams',
         'nmt_workspace_update_binning', 'nmt_compute_coupling_matrix', 'nmt_couple_cl_l',
         'nmt_decouple_cl_l', 'nmt_compute_bandpower_windows')
    c.rule('update', 'the binned matrix after an update is the binning of the current unbinned '
           'matrix, beams and bins; ' + LEMMA)
    c.rule('create', 'same for a new workspace, which keeps its own copies of its inputs; ' + LEMMA)
    c.rule('use', 'coupling, decoupling and bandpower windows use the current matrix, beams and '
           'bins; ' + LEMMA)
    c.rule('lu', 'typestate: after the last store into the binned matrix it is factorised, once, '
           'into the permutation of the same workspace, before the function returns')
    c.rule('pair', 'a factorised matrix is used with the permutation of the same workspace')
    lemmas(c, P, 'update', [
        ('upd_mcm_binned', {}, {'pre': 'P_binned'}), ('upd_beams', {}), ('upd_beams_prod', {}),
        ('upd_bins', {}), ('upd_mcm_unbinned', {})] +
        [('upd_bins_copy', {'k': k}) for k in range(6)])
    lemmas(c, P, 'use', [('couple', {}), ('decouple', {}), ('bpw', {})])
    for s1, s2, teb in ((0, 0, 0), (0, 2, 0), (2, 2, 0), (0, 2, 1)):
        n = 7 if teb else (2 if s1 else 1) * (2 if s2 else 1)
        cfg = dict(spin1=s1, spin2=s2, is_teb=teb, pe1=0, pb1=0, pe2=0, pb2=0)
        lemmas(c, P, 'create', [
            ('mcm_binned', cfg, {'multi': [dict(a=a, b=b) for a in range(n) for b in range(n)
                                           if n < 4 or a in (0, 1, n - 1) or c.thorough]}),
            ('mcm_scalars', cfg, {'multi': [dict(k=k) for k in range(9)]})])
    B = ('G_binned', 'G_perm')
    for e, cfg, tgt in (('nmt_update_coupling_matrix', {}, 'w'),
                        ('nmt_workspace_update_beams', {}, 'w'),
                        ('nmt_workspace_update_binning', {}, 'w'),
                        ('nmt_compute_coupling_matrix',
                         dict(spin1=0, spin2=0, pure_e1=0, pure_b1=0, pure_e2=0, pure_b2=0,
                              is_teb=0, l_toeplitz=-1), None),
                        ('nmt_compute_coupling_matrix_anisotropic', dict(spin1=0, spin2=2), None)):
        if e.endswith('anisotropic') and P.lookup(e) is None:
            continue
        c.job('lu:' + e, lu_state, P, e, cfg, B[0], B[1], tgt)
    FM = dict(lemma.MODELS, **lemma.FLAT)
    need(P, 'nmt_compute_coupling_matrix_flat', 'nmt_couple_cl_l_flat_fast',
         'nmt_couple_cl_l_flat_quick', 'nmt_decouple_cl_l_flat')
    for s1, s2, teb in ((0, 0, 0), (0, 2, 0), (2, 2, 0), (0, 2, 1)):
        n = 7 if teb else (2 if s1 else 1) * (2 if s2 else 1)
        cfg = dict(is_teb=teb, same=0, s1=s1, s2=s2, pe1=0, pb1=0, pe2=0, pb2=0)
        lemmas(c, P, 'create', [('flat', cfg, {'models': FM, 'multi': [
            dict(a=a, b=b, rings=-2) for a, b in ((0, 0), (0, n - 1), (n - 1, n - 1), (n // 2, n // 2))]})])
        c.job('lu:flat%d%d%d' % (s1, s2, teb), lu_state, P, 'S_flat', cfg, 'G_binned_flat',
              'G_perm_flat', None, FM, 'nmt_compute_coupling_matrix_flat')
    lemmas(c, P, 'use', [(x, {}, {'models': FM}) for x in
                         ('couple_flat', 'couple_flat_quick', 'decouple_flat')])
    pairs(P, c)
    c.floor = 40
    pyrule(c, P, 'python', 'Python workspaces hand updates on to the native workspace and follow them',
           tagged(ws_items(), 'update', 'state'))
