"""Failures while a file is written or read are reported."""
import ast
from .common import *   # noqa
from .pyset import *   # noqa
from ..ceval import CEval
from ..terms import and_, eq, ONE, ZERO, TRUE, FALSE, obj
from ..fitsmodel import MODELS as FITS, text, fail

GHOST = (obj('ghost'), ())
# what each operation fails with (CFITSIO codes)
CODE = {'ffmnhd': 301, 'ffgky': 202, 'ffopentest': 104, 'ffopen': 104, 'ffinit': 105}
# keywords that files of earlier versions lack, and that have a documented default
OPTIONAL = ('NORM_TYPE', 'W2', 'LMAX_MASK', 'SPIN0_ONLY')


def site(ev, name, args, n):
    k = [name] + ['%s:%d' % (f.func.name, f.call.line if f.call is not None else 0) for f in ev.frames]
    return tuple(k) + (n.line,)


def run(P, entry, cfg, target, inside):
    """summary of entry when the operation `target` fails; target None lists the operations"""
    ev = CEval(P, opaque=lemma.OPAQUE)
    ev.keep_undef = True
    found = {}
    hit = []

    def wrap(name, m):
        def model(ev, args, n):
            here = [f for f in ev.frames if f.func.name == inside]
            if not here or not n or not args:
                return m(ev, args, n)
            k = site(ev, name, args, n)
            if k not in found:
                lab = [t for t in (text(ev, a, n) for a in args[:4] if a.op in ('str', 'ptr')) if t]
                found[k] = (name, (n.file or ev.frames[-1].func.file), n.line, lab)
            if k != target:
                return m(ev, args, n)
            st = ev.load_g(ev.deref(args[-1]), 'int', n)

            def go():
                fail(ev, args[-1], CODE.get(name, 108), n)
                ev.store_g(GHOST, ONE, n)
            hit.append((ev.st.pc, list(ev.loops)))
            ev.emit('call', n, fn='fits:fault', args=list(args))
            ev.branch(eq(st, ZERO), go, None)
            return ZERO
        return model
    ev.models = dict(lemma.MODELS, **{k: (v if 'sprintf' in k else wrap(k, v)) for k, v in FITS.items()})
    ev.init[GHOST] = ZERO
    ev.run(entry, {k: T.num(v) for k, v in cfg.items()})
    return ev, found, hit


def badsizes(ev):
    """places where the number of elements of an allocation or loop was never set"""
    out = []
    for e in ev.effects:
        for t in (list(e.args or ()) if e.kind == 'alloc' else []) + [l.hi for l in e.loops]:
            if isinstance(t, T.Term) and any(x.op == 'fn' and x.args[0] == 'undef' for x in T.subterms(t)):
                out.append(e)
                break
    return out


def faults(P, entry, cfg, inside):
    ev, found, _ = run(P, entry, cfg, None, inside)
    old = set(e.where() for e in badsizes(ev))
    out = []
    if not ev.st.alive:
        return [Ob('faults:' + inside, UNK, msg='no normal return', rule='faults')]
    for k, (name, file, line, lab) in found.items():
        lab = [x for x in lab if not x.startswith('/')]
        key = 'fault:%s%s:%s:%s' % (inside, ''.join(',%s=%s' % c for c in sorted(cfg.items())), name,
                                    '/'.join(lab) or str(len(out)))
        where = '%s:%d' % (os.path.relpath(file, cfront.REPO) if file else '?', line)
        if name == 'ffgky' and lab and lab[-1] in OPTIONAL:
            continue
        if name == 'ffclos' and 'read' in inside:
            continue
        out.append(one(P, entry, cfg, inside, k, key, where, name, old))
    return out


def one(P, entry, cfg, inside, k, key, where, name, old):
    ev, _, hit = run(P, entry, cfg, k, inside)
    if not hit:
        return Ob(key, UNK, where, 'operation not reached', 'faults')
    ev.frames = [ev.base_frame]
    for e in badsizes(ev) if 'read' in inside else []:
        if e.where() not in old:
            return Ob(key, BAD, where, 'after a failure of this operation (%s) what it should have read is used '
                      'at %s before the failure is noticed' % (name, e.where()), 'faults')
    if not ev.st.alive or ev.st.pc is FALSE:
        return Ob(key, OK, where, '', 'faults')
    c = and_(ev.st.pc, T.truth(ev.load_g(GHOST, 'int', None)))
    v, un = lemma.vocabulary(c)
    if un:
        c = ev.st.pc
        v, un = lemma.vocabulary(c)
    if c is not FALSE and not un:
        # the operation was made: in some iteration of the loops around it
        pc, loops = hit[-1]
        rng = [x for l in loops for x in (T.le(l.lo, l.sym), T.lt(l.sym, l.hi))]
        o, _ = T.equiv(T.ite(c, ONE, ZERO), ZERO, where=and_(pc, *rng), ranges=lemma.shapes)
        if o:
            c = FALSE
    if c is FALSE:
        return Ob(key, OK, where, '', 'faults')
    if un:
        return Ob(key, UNK, where, 'unresolved: ' + ', '.join(sorted(un))[:200], 'faults')
    return Ob(key, BAD, where, 'the call returns normally although this operation (%s) failed' % name
              + ('' if c is TRUE else ', if ' + T.show(c)[:200]), 'faults')


def check(c):
    P = program(c, True)
    need(P, *[f for e, f, g in ENTRIES])
    c.rule('faults', 'for every CFITSIO operation made while writing or reading (also in loops): if it fails, the '
           'call ends in an error exit, and no size that the failed operation should have read is used before')
    for e, f, cfg in ENTRIES:
        c.job('faults:' + f, faults, P, e, cfg, f)
    c.rule('boundary', 'every call from a wrapper function into the library that may report an error is made where '
           'the error is caught and turned into a Python exception')
    c.rule('handlers', 'no exception handler of the Python layer catches the exception of a native call and goes on')
    for o in boundary(P) + swallowed():
        c.add(o)
    c.floor = 150


ENTRIES = [(e, f, cfg) for e, cfg, fs in (
    ('S_io_ws', dict(un=1), 'nmt_workspace'), ('S_io_wsf', {}, 'nmt_workspace_flat'),
    ('S_io_cw', dict(spin0=0), 'nmt_covar_workspace'), ('S_io_cwf', {}, 'nmt_covar_workspace_flat'))
    for e, f, cfg in ((e, fs + '_read_fits', cfg), (fs + '_write_fits', fs + '_write_fits', {}))]


# ------------------------------------------------------------------ the boundary with Python
def modules():
    d = os.path.join(cfront.REPO, 'pymaster')
    return {n: ast.parse(open(os.path.join(d, n)).read()) for n in sorted(os.listdir(d))
            if n.endswith('.py') and n != 'nmtlib.py'}


def aliases(t):
    return set(a.asname or a.name.split('.')[-1] for x in ast.walk(t)
               if isinstance(x, (ast.ImportFrom, ast.Import)) for a in x.names
               if a.name.split('.')[-1] == 'nmtlib')


BROAD = ('Exception', 'BaseException', 'RuntimeError')


def swallowed():
    """handlers that catch the exceptions of native calls and go on"""
    out = []
    ms = modules()
    lib = {}
    for n, t in ms.items():
        lib[n] = aliases(t)

    def native(n, x):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
            isinstance(x.func.value, ast.Name) and x.func.value.id in lib[n]
    defs = {}
    for n, t in ms.items():
        for x in ast.walk(t):
            if isinstance(x, ast.FunctionDef):
                defs.setdefault(x.name, []).append((n, x))
    reach = set()
    while True:
        more = set(k for k, v in defs.items() if k not in reach and len(v) == 1 and any(
            native(v[0][0], y) or calls(y) in reach for y in ast.walk(v[0][1])))
        if not more:
            break
        reach |= more
    for n, t in ms.items():
        for x in ast.walk(t):
            if not isinstance(x, ast.Try):
                continue
            ns = [y for b in x.body for y in ast.walk(b) if native(n, y) or calls(y) in reach]
            for h in x.handlers:
                ty = [y.id for y in ast.walk(h.type) if isinstance(y, ast.Name)] if h.type else ['Exception']
                bad = ns and any(y in BROAD for y in ty) and not any(
                    isinstance(y, ast.Raise) for b in h.body for y in ast.walk(b))
                where = 'pymaster/%s:%d' % (n, h.lineno)
                out.append(Ob('handler:%s:%s' % (n, '/'.join(ty)), BAD if bad else OK, where, '' if not bad else
                              'the exception of %s is caught and not raised again' % ast.unparse(ns[0].func),
                              'handlers'))
    return out


def calls(y):
    if isinstance(y, ast.Call):
        return y.func.attr if isinstance(y.func, ast.Attribute) else getattr(y.func, 'id', None)
    return None


def reaching(P):
    """functions that may end in report_error"""
    calls, todo = {}, []
    for f in set(P.funcs.values()):
        if f.body is None:
            continue
        for x in f.body.walk():
            if x.kind == 'DeclRefExpr' and x.ref:
                calls.setdefault(x.ref, set()).add(f.name)
    out = {'report_error'}
    todo = ['report_error']
    while todo:
        for n in calls.get(todo.pop(), ()):
            if n not in out:
                out.add(n)
                todo.append(n)
    return out


def boundary(P):
    """calls out of the wrapper functions are made where an error is caught and raised"""
    reach = reaching(P)
    used = set()
    for t in modules().values():
        al = aliases(t)
        used |= set(x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and
                    isinstance(x.value, ast.Name) and x.value.id in al)
    out = []
    for f in sorted(set(P.funcs.values()), key=lambda f: f.name):
        if f.body is None or not f.file.endswith('_wrap.c') or f.name[6:] not in used or \
                not f.name.startswith('_wrap_'):
            continue
        inside = set()
        for x in f.body.walk():
            if x.kind == 'IfStmt' and any(y.kind == 'DeclRefExpr' and 'setjmp' in (y.ref or '')
                                          for y in x.ch[0].walk()):
                inside |= set(id(y) for y in x.ch[1].walk())
        n = 0
        for x in f.body.walk():
            if x.kind != 'CallExpr' or not x.ch:
                continue
            nm = [y.ref for y in x.ch[0].walk() if y.kind == 'DeclRefExpr']
            if not nm or nm[0] not in reach or nm[0].startswith('SWIG') or nm[0].startswith('_wrap'):
                continue
            n += 1
            key = 'boundary:%s:%s' % (f.name[6:], nm[0])
            where = '%s:%d' % (os.path.relpath(f.file, cfront.REPO), x.line or 0)
            out.append(Ob(key, OK if id(x) in inside else BAD, where, '' if id(x) in inside else
                          'an error of %s does not end in an exception of this call' % nm[0], 'boundary'))
    return out
