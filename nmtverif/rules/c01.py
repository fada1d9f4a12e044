"""A workspace read back from its file equals the one written."""
from .common import *   # noqa
from .pyset import *   # noqa
from ..ceval import CEval
from ..terms import ptr, ZERO
from ..core import OK, BAD, UNK


def fields(P, entry, record, cfg, seen):
    """every member of the restored structure is set, and plain members to their old value"""
    ev = CEval(P, opaque=lemma.OPAQUE, models=dict(lemma.MODELS, **lemma.FITS))
    ev.keep_undef = True
    r = ev.run(entry, {k: T.num(v) for k, v in cfg.items()})
    ev.frames = [ev.base_frame]
    out = []
    if r.op != 'ptr':
        return [Ob('fields:' + entry, UNK, msg='restored workspace not resolved', rule='fields')]
    w = ev.param(P.lookup(entry).params[0])
    for name, ctype, desug in P.records.get(record, ()):
        key = 'field:%s:%s.%s' % (entry, record, name)
        b, s = ev.deref(r)
        v = ev.load_g((b, s + (('f', name),)), desug, None)
        b2, s2 = ev.deref(w)
        o = ev.load_g((b2, s2 + (('f', name),)), desug, None)
        where = P.lookup(entry).file
        calls = [e for e in ev.effects if e.kind == 'call' and e.fn.startswith('fits:') and e.file and
                 not e.file.startswith(cfront.SPEC)]
        where = calls[-1].where() if calls else ''
        if v.op == 'fn' and v.args[0] == 'undef':
            arr = desug.endswith(']') and any(e.kind == 'set' and e.base is b and any(
                x == ('f', name) for x in e.steps) for e in ev.log)
            if arr:
                out.append(Ob(key, OK, where, '', 'fields'))
            elif users(P, record, name):
                out.append(Ob(key, BAD, where, 'member %s of a restored %s is never set' % (
                    name, record), 'fields'))
            else:
                out.append(Ob(key, UNK, where, 'unused member', 'fields'))
            continue
        if v.op in ('ptr', 'ite') or desug.endswith('*') or name in seen or v is o:
            out.append(Ob(key, OK, where, '', 'fields'))
            continue
        va, un = lemma.vocabulary(v)
        eq, pts = T.equiv(v, o)
        st = OK if eq else (UNK if un or va else BAD)
        out.append(Ob(key, st, where, '' if st == OK else 'restored value differs: ' +
                      T.show(v)[:200], 'fields'))
    return out


def users(P, record, name):
    for f in set(P.funcs.values()):
        if f.body is None or f.file.startswith(cfront.SPEC) or f.file.endswith('nmt_io.c'):
            continue
        for x in f.body.walk():
            if x.kind == 'MemberExpr' and x.name == name and x.ch and \
                    record in (x.ch[0].type or ''):
                return f
    return None


def check(c):
    P = program(c, True)
    need(P, 'nmt_workspace_write_fits', 'nmt_workspace_read_fits', 'nmt_workspace_flat_write_fits',
         'nmt_workspace_flat_read_fits', 'nmt_covar_workspace_write_fits',
         'nmt_covar_workspace_read_fits', 'nmt_covar_workspace_flat_write_fits',
         'nmt_covar_workspace_flat_read_fits')
    c.rule('restore', 'writing and reading back a workspace, over abstract FITS files, gives every '
           'member its original value and never ends in an error exit; ' + LEMMA)
    c.rule('bands', 'same for the bandpowers, for given lists of multipoles and any weights')
    c.rule('fields', 'every member of the structure a reader returns is set on the way')
    F = dict(lemma.MODELS, **lemma.FITS)
    kw = {'models': F, 'strict': True}

    def add(name, cfg, multi, rule='restore'):
        lemmas(c, P, rule, [(name, cfg, dict(kw, multi=multi))])
    for un in (0, 1):
        add('io_ws', dict(un=un), [dict(k=k) for k in range(12) if un or k != 9])
    add('io_wsf', {}, [dict(k=k) for k in range(29)])
    add('io_cw', dict(spin0=0), [dict(k=k) for k in range(11)])
    add('io_cw', dict(spin0=1), [dict(k=k) for k in range(5)])
    add('io_cw0', {}, [dict(k=k) for k in range(11)])
    add('io_cwf', {}, [dict(k=k) for k in range(11)])
    shapes = {0: [2, 2], 1: [2, 2, 1], 2: [2, 2], 3: [1, 2]}
    for sh, nl in shapes.items():
        m = [dict(q=0, i=0, j=0), dict(q=1, i=0, j=0)]
        m += [dict(q=2, i=i, j=0) for i in range(len(nl))]
        m += [dict(q=q, i=i, j=j) for q in (3, 4, 5) for i in range(len(nl)) for j in range(nl[i])]
        add('io_bins', dict(sh=sh), m, 'bands')
    for e, r, cfg in (('S_io_ws', 'nmt_workspace', dict(un=1)),
                      ('S_io_ws', 'nmt_workspace', dict(un=0)),
                      ('S_io_wsf', 'nmt_workspace_flat', {}),
                      ('S_io_cw', 'nmt_covar_workspace', {}),
                      ('S_io_cwf', 'nmt_covar_workspace_flat', {})):
        c.job('fields:' + e, fields, P, e, r, cfg, ())
    c.floor = 100
    pyrule(c, P, 'python', 'writing and restoring a workspace from Python sets every attribute later '
           'calls use', tagged(allitems(), 'io'))
