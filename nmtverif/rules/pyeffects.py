"""Effects of uses of the Python interface: inputs left alone, copies kept, native objects released."""
from .pyset import *   # noqa
from .. import pyeval
from ..pyeval import Inst, Handle, Ch, Arr, Opq, Bound, Dead
from ..pylemma import Run, leaves, Und, Mismatch, vocab, solve, indices


def arrays(v, path, out, seen):
    """(path, array) of everything reachable from an input"""
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Arr):
        out.append((path, v))
    elif isinstance(v, PyDict):
        for k, x in v.items.items():
            arrays(x, path + '.' + str(k) if path else str(k), out, seen)
    elif isinstance(v, (PyList, tuple)):
        for k, x in enumerate(v.items if isinstance(v, PyList) else v):
            arrays(x, '%s[%d]' % (path, k), out, seen)


def containers(v, path, out, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, PyDict):
        out.append((path, v, dict(v.items)))
        for k, x in v.items.items():
            containers(x, path + '.' + str(k) if path else str(k), out, seen)
    elif isinstance(v, PyList):
        out.append((path, v, list(v.items)))
        for k, x in enumerate(v.items):
            containers(x, '%s[%d]' % (path, k), out, seen)


def start(P, it):
    """runs the use; returns the run and the state of its inputs before it"""
    keep = {}

    def inp(I):
        v = inputs(it)(I)
        ars, cts = [], []
        for k, x in v.items():
            arrays(x, k, ars, keep.setdefault('s1', set()))
            containers(x, k, cts, keep.setdefault('s2', set()))
        keep['ars'] = [(p, a, a.buf.fn) for p, a in ars]
        keep['cts'] = cts
        return v
    return Run(P, 'L_' + it.name, it.mod, inp, it.over, it.pre), keep


def possible(c, pre, ranges):
    """True: the condition holds for some admissible input; False: not found; None: unresolved"""
    if c is FALSE:
        return False
    if vocab(c)[1]:
        return None
    w = and_(pre, c)
    o, k = T.equiv(ZERO, num(1), n=1, rng=(1, 4), where=w, ranges=indices(ranges or pylemma.ranges0),
                   tries=400, assign=solve(w))
    return None if o is None else True


def same(r, it, pc, a, b):
    """None if equal, a path and two terms if different, Und if not known"""
    where = and_(r.pre, pc)
    asg = solve(where)
    for p, u, v in leaves(r.I, r.I, a, b):
        if u is v:
            continue
        o, k = T.equiv(u, v, n=6, rng=(1, 4), where=where,
                       ranges=indices(it.ranges or pylemma.ranges0, u, v), tries=400, assign=asg)
        if o is None:
            raise Und('no admissible interpretation')
        if not o:
            if vocab(u)[1] or vocab(v)[1]:
                raise Und('unresolved')
            return p, u, v
    return None


FIXED = ('NmtField', 'NmtBin')


def untouched(P, it, rule, mod={}):
    r, keep = start(P, it)
    d = {'functions': frames_(r), 'inputs': [p for p, a, f in keep['ars']][:40]}
    if r.pc is FALSE:
        return Ob(it.key, OK, msg='raises', rule=rule, data=d)
    ws = [e for e in r.effects if e.kind == 'write']
    where = '; '.join(str(e)[:200] for e in ws[-3:])
    und = ''
    for e in r.effects:
        if e.kind != 'native':
            continue
        for a in e.order:
            if (e.name, a) not in mod:
                continue
            v = e.args[a][0]
            vs = [x for g, x in v.alts] if isinstance(v, Ch) else [v]
            if any(isinstance(x, Arr) and x.buf.kind == 'caller' for x in vs):
                must, site = mod[e.name, a]
                if must and not isinstance(v, Ch) and possible(e.pc, r.pre, it.ranges):
                    return Ob(it.key, BAD, '%s; %s' % (e.where, site), 'an array of the caller reaches '
                              '%s, which modifies it' % e.name, rule, d)
                und = und or '%s modifies %s' % (e.name, a)
    for p, a, f in keep['ars']:
        if a.buf.fn is f:
            continue
        old = Arr(pyeval.Buf(a.buf.shape, f, 'caller', a.buf.name, a.buf.dtype))
        try:
            x = same(r, it, r.pc, Arr(a.buf), old)
        except Und as u:
            und = und or '%s: %s' % (p, u.why)
            continue
        except Mismatch as m:
            x = (m.path, m.a, m.b)
        if x:
            d.update(found=str(x[1])[:2000], expected=str(x[2])[:2000])
            return Ob(it.key, BAD, where, 'input array %s is modified' % p, rule, d)
    for p, c, old in keep['cts']:
        new = c.items
        if isinstance(c, PyDict):
            gone = [k for k in list(old) + list(new) if k not in new or k not in old or
                    not (new[k] is old[k] or isinstance(new[k], T.Term) and new[k] == old[k])]
        else:
            gone = [k for k in range(max(len(old), len(new))) if k >= len(old) or k >= len(new) or
                    new[k] is not old[k]]
        if gone:
            if any(isinstance(new[k], (Ch, Opq)) for k in gone if
                   (k in new if isinstance(c, PyDict) else k < len(new))):
                und = und or p
                continue
            return Ob(it.key, BAD, where, 'input %s is modified (%s)' % (p, gone[0]), rule, d)
    for o in r.I.instances:
        if not o.cls.name.startswith(FIXED) or not hasattr(o, 'snap0'):
            continue
        for k in sorted(set(o.snap0) | set(o.attrs)):
            v0, f0 = o.snap0.get(k, (None, None))
            v1 = o.attrs.get(k)
            try:
                if v0 is None or v1 is v0 and (not isinstance(v0, Arr) or v0.buf.fn is f0):
                    continue
                if isinstance(v0, Arr):
                    v0 = Arr(pyeval.Buf(v0.buf.shape, f0, dtype=v0.buf.dtype), v0.shape, v0.imap)
                x = same(r, it, r.pc, v1, v0)
            except Und as u:
                und = und or '%s.%s: %s' % (o.cls.name, k, u.why)
                continue
            except Mismatch as m:
                x = (m.path, m.a, m.b)
                if isinstance(m.a, (Opq, Ch)) or isinstance(m.b, (Opq, Ch)):
                    und = und or '%s.%s' % (o.cls.name, k)
                    continue
            if x:
                d.update(found=str(x[1])[:2000], expected=str(x[2])[:2000])
                es = [e for e in r.effects if e.kind in ('setattr', 'write') and
                      (e.kind == 'write' or e.name == k)]
                return Ob(it.key, BAD, '; '.join(str(e)[:150] for e in es[-3:]),
                          'attribute %s of a %s is changed by a later call' % (k, o.cls.name), rule, d)
    if und:
        return Ob(it.key, UNK, msg=und, rule=rule, data=d)
    return Ob(it.key, OK, rule=rule, data=d)


def frames_(r):
    return sorted(q for q in r.I.visited if not q.startswith(('L_', 'R_')))[:40]


def private(P, it, rule):
    """no object keeps memory of the caller"""
    r, keep = start(P, it)
    d = {'functions': frames_(r), 'objects': [o.cls.name for o in r.I.instances]}
    if r.pc is FALSE:
        return Ob(it.key, OK, msg='raises', rule=rule, data=d)
    und = ''
    for o in r.I.instances:
        if not o.cls.name.startswith('Nmt'):
            continue
        out = []
        for k, v in o.attrs.items():
            todo = [v]
            while todo:
                x = todo.pop()
                if isinstance(x, Ch):
                    if any(isinstance(y, Arr) and y.buf.kind == 'caller' for c, y in x.alts):
                        out.append((k, x))
                elif isinstance(x, Arr):
                    if x.buf.kind == 'caller':
                        out.append((k, x))
                elif isinstance(x, (tuple, PyList)):
                    todo.extend(x.items if isinstance(x, PyList) else x)
                elif isinstance(x, Opq):
                    und = und or '%s.%s' % (o.cls.name, k)
        for k, x in out:
            if isinstance(x, Ch):
                cs = [possible(and_(r.pc, c), r.pre, it.ranges) for c, y in x.alts
                      if isinstance(y, Arr) and y.buf.kind == 'caller']
                if not any(cs):
                    und = und or '%s.%s' % (o.cls.name, k) if None in cs else und
                    continue
            es = [e for e in r.effects if e.kind == 'setattr' and e.name == k]
            return Ob(it.key, BAD, '; '.join(e.where for e in es[-2:]),
                      'attribute %s of %s is memory of the caller' % (k, o.cls.name), rule, d)
    if und:
        return Ob(it.key, UNK, msg=und, rule=rule, data=d)
    return Ob(it.key, OK, rule=rule, data=d)


def guarded(node):
    """names read by __del__ and whether it copes with their absence"""
    import ast
    names, safe = set(), False
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
            names.add(x.attr)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'hasattr', 'vars'):
            safe = True
        if isinstance(x, ast.Try):
            safe = True
        if isinstance(x, ast.Attribute) and x.attr == '__dict__':
            safe = True
    return set() if safe else names


def handles(P, it, rule):
    """native objects: no use after release, released exactly once"""
    r, keep = start(P, it)
    I = r.I
    d = {'functions': frames_(r), 'native objects': [h.made + ' at ' + h.where for h in I.handles]}
    und = ''

    def poss(c):
        return possible(c, r.pre, it.ranges)
    for e in r.effects:
        if e.kind == 'uaf':
            p = poss(and_(e.pc, e.cond))
            if p:
                return Ob(it.key, BAD, e.where, 'a released native object is used (%s)' % e.name, rule, d)
            und = und or ('unresolved: %s' % e if p is None else '')
        for o, at, fr in getattr(e, 'dangling', ()):
            if o.cls.lookup('__del__') is None:
                continue
            if e.kind == 'raise' and caught(e, r):
                continue
            p = poss(and_(e.pc, fr))
            if p:
                return Ob(it.key, BAD, e.where, '%s.%s is a released object while %s may raise'
                          % (o.cls.name, at, e.name), rule, d)
            und = und or ('unresolved: %s' % e if p is None else '')
        for o, at in getattr(e, 'building', ()):
            dl = o.cls.lookup('__del__')
            if dl is None or not isinstance(dl[0], pyeval.Func):
                continue
            for nm in guarded(dl[0].node):
                if nm in at or o.cls.lookup(nm) is not None:
                    continue
                p = poss(e.pc)
                if p:
                    return Ob(it.key, BAD, e.where, '%s.__del__ needs attribute %s, which is not set '
                              'when %s raises' % (o.cls.name, nm, e.name), rule, d)
        if e.kind == 'raise' and not caught(e, r):
            for h in getattr(e, 'local', ()):
                if h.freed is not FALSE:
                    continue
                p = poss(and_(e.pc, h.pc))
                if p:
                    return Ob(it.key, BAD, e.where, 'native object of %s (%s) is not released when '
                              'an exception is raised' % (h.made, h.where), rule, d)
    if r.pc is FALSE:
        return Ob(it.key, OK, msg='raises', rule=rule, data=d)
    out = []
    arrays_of(r.value, out, set())
    n0 = len(r.effects)
    I.pc = r.pc
    for o in list(I.instances):
        dl = o.cls.lookup('__del__')
        if dl is None or not isinstance(dl[0], pyeval.Func) or o in out:
            continue
        try:
            I.call(Bound(o, dl[0]), [], {}, dl[0].node)
        except Dead:
            rs = [e for e in I.effects[n0:] if e.kind == 'raise']
            return Ob(it.key, BAD, '; '.join(e.where for e in rs[-1:]),
                      '%s.__del__ raises' % o.cls.name, rule, d)
    un = [e for e in I.effects[n0:] if e.kind == 'unknown']
    if un or und:
        return Ob(it.key, UNK, msg='unresolved: %s' % (un[:1] or und), rule=rule, data=d)
    for e in I.effects[n0:]:
        if e.kind == 'uaf':
            p = poss(and_(e.pc, e.cond))
            if p:
                return Ob(it.key, BAD, e.where, 'a native object is released twice', rule, d)
            und = und or str(e)
    for h in I.handles:
        if h in out:
            continue
        c = and_(h.pc, r.pc, not_(h.freed))
        p = poss(c)
        if p:
            return Ob(it.key, BAD, h.where, 'the native object made by %s is never released' % h.made,
                      rule, d)
        und = und or ('unresolved release of %s' % h.made if p is None and c is not FALSE else '')
    if und:
        return Ob(it.key, UNK, msg=und[:300], rule=rule, data=d)
    return Ob(it.key, OK, rule=rule, data=d)


def arrays_of(v, out, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, (Inst, Handle)):
        out.append(v)
    elif isinstance(v, (tuple, PyList, PyDict)):
        for x in v if type(v) is tuple else v.items.values() if isinstance(v, PyDict) else v.items:
            arrays_of(x, out, seen)


def caught(e, r):
    return not hasattr(e, 'local') and any(f.kind == 'caught' and and_(f.pc, e.pc) is not FALSE
                                           for f in r.effects)


def rule_jobs(c, P, fn_, rule, text, items):
    c.rule(rule, text)
    for it in items:
        c.job(it.key, fn_, P, it, rule)
    c.floor = (c.floor or 0) + max(1, len(items) // 2)


def rngstate(P, it, rule):
    """the global generator of numpy is left as it was (one draw when no seed is given)"""
    r, keep = start(P, it)
    d = {'functions': frames_(r)}
    if r.pc is FALSE:
        return Ob(it.key, OK, msg='raises', rule=rule, data=d)
    st = r.I.rngbox['state']
    es = [e for e in r.effects if e.kind == 'rng']
    where = '; '.join('%s %s' % (e.where, e.name) for e in es[-3:])
    if st is r.I.rng:
        return Ob(it.key, OK, where, rule=rule, data=d)
    if not isinstance(st, T.Term) or vocab(st)[1] - {'?seed'}:
        return Ob(it.key, UNK, where, 'unresolved state', rule, d)
    seed = r.inputs.get('seed')
    w = and_(r.pre, r.pc)
    drawn = T.fn('rngnext', (r.I.rng, T.str_('randint')))
    exp = r.I.rng if seed is None else T.ite(lt(seed, ZERO), drawn, r.I.rng)
    o, k = T.equiv(st, exp, n=6, rng=(1, 4), where=w, tries=400, assign=solve(w),
                   ranges=dict(it.ranges({}) if callable(it.ranges) else {}, **{'in:seed': (-3, 3)}))
    d.update(found=T.show(st)[:1000], expected=T.show(exp)[:1000])
    if o is None:
        return Ob(it.key, UNK, where, 'no admissible interpretation', rule, d)
    if not o:
        return Ob(it.key, BAD, where, 'the state of the global random generator is changed', rule, d)
    return Ob(it.key, OK, where, rule=rule, data=d)
