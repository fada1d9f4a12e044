"""Abstract FITS files: header keywords, image pixels and table columns by HDU name.

A file is an abstract object; its current HDU, the HDU of every EXTNAME, and each HDU's
keywords, image size, pixels, rows and columns are abstract memory locations, so that what
a reader obtains is a value-flow term over what a writer stored.  CFITSIO conventions: a
call does nothing once the status is non-zero; a missing HDU, a missing keyword or an HDU of
another type sets the status; values are converted to the type of the column or image."""
from . import terms as T
from .terms import *   # noqa
from .terms import minmax

CT = {31: 'int', 41: 'long', 82: 'double', 16: 'string', 42: 'float'}
NOHDU = ptr(obj('nohdu'), ())
OKTYPE = {'int': ('int',), 'long': ('long', 'npy_intp'), 'double': ('double', 'flouble'),
          'float': ('float',)}


def pointee(ev, n, i):
    """C type behind argument i of the call, ignoring the conversion to void *"""
    a = n.ch[i + 1]
    while a.kind in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and a.ch and \
            (a.kind == 'ParenExpr' or 'void' in (a.type or '') or a.cast == 'BitCast'):
        a = a.ch[-1]
    t = (a.type or '').strip()
    t = t.replace('const ', '').strip()
    if t.endswith(']'):
        return t[:t.index('[')].strip()
    return t[:-1].strip() if t.endswith('*') else t


def typed(ev, n, i, code):
    """does the declared type code match the C type of the argument?"""
    want = CT.get(T.ival(code))
    t = pointee(ev, n, i)
    if want is None:
        return None
    return t in OKTYPE.get(want, (want,))


def fail(ev, status, code, n, cond=TRUE):
    """status = code where cond holds (and it was zero)"""
    if cond is FALSE:
        return
    loc = ev.deref(status)
    ev.branch(cond, lambda: ev.store_g(loc, num(code), n), None)


def guarded(f):
    """a call with a non-zero status does nothing"""
    def model(ev, args, n):
        status = args[-1]
        ev.emit('call', n, fn='fits:' + f.__name__, args=list(args))
        if status.op not in ('ptr', 'ite'):
            return NotImplemented
        st = ev.load_g(ev.deref(status), 'int', n)
        out = []
        ev.branch(eq(st, ZERO), lambda: out.append(f(ev, args, n)), None)
        if any(x is NotImplemented for x in out):
            return NotImplemented
        return ZERO
    return model


def cur(ev, f, n):
    if f.op != 'ptr':
        return None
    return ev.load_g((f.args[0], (('f', 'cur'),)), 'hdu *', n)


def at(p, *steps):
    """location inside an HDU (or gated HDUs)"""
    s = tuple(('f', x) if isinstance(x, str) else ('i', x) for x in steps)
    if p.op == 'ptr':
        return p.args[0], tuple(p.args[1]) + s
    return obj('gated', p), s


def defined(v):
    """condition under which a value was stored"""
    if v.op == 'ite':
        return T.bool_ite(v.args[0], defined(v.args[1]), defined(v.args[2]))
    if v is NOHDU:
        return FALSE
    if v.op == 'ptr' and v.args[0].op == 'obj' and v.args[0].args[0] == 'nohdu':
        return FALSE
    if v.op == 'fn' and v.args[0] == 'nokey':
        return FALSE
    return TRUE


def text(ev, p, n):
    """C string as a constant"""
    if p.op == 'str':
        return p.args[0]
    if p.op == 'ptr':
        b, s = p.args
        if s and s[-1][0] == 'i' and isnum(s[-1][1], 0):
            s = s[:-1]
        v = ev.load_g((b, tuple(s) + (('f', '@text'),)), 'char *', n)
        if v.op == 'str':
            return v.args[0]
    return None


def sprintf(ev, args, n):
    """formats made of %s and %d of constants"""
    chk = n.ch and len(args) > 2 and args[1].op != 'str'
    dst = args[0]
    rest = args[3:] if chk else args[1:]
    fmt = text(ev, rest[0], n)
    ev.emit('call', n, fn='sprintf', args=list(args))
    if fmt is None or dst.op != 'ptr':
        return NotImplemented
    out, i, k = '', 0, 1
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out += c
            i += 1
            continue
        d = fmt[i + 1:i + 2]
        i += 2
        if d == '%':
            out += '%'
            continue
        if k >= len(rest):
            return NotImplemented
        v = rest[k]
        k += 1
        if d == 's':
            t = text(ev, v, n)
        elif d == 'd':
            t = T.ival(v)
            t = None if t is None else str(t)
        else:
            t = None
        if t is None:
            out = None
            break
        out += t
    b, s = dst.args
    if s and s[-1][0] == 'i' and isnum(s[-1][1], 0):
        s = s[:-1]
    ev.store((b, tuple(s) + (('f', '@text'),)),
             str_(out) if out is not None else ev.opaque_term('text'), n)
    return ZERO


def convert(v, form):
    """value after storage as FITS type `form`"""
    if form in ('J', 'I', 'K', 'B') and not v.isint:
        return T.refn('toint', (v,), True)
    if form == 'E':
        return fn('float32', (v,), v.isint)
    if form == 'I' or form == 'B':
        return fn('narrow', (v,), True)
    return v


def readas(v, ctype):
    if ctype in ('int', 'long') and not v.isint:
        return T.refn('toint', (v,), True)
    return v


# ------------------------------------------------------------------ files
def fitsfile(ev, args, n, fptr, name, status):
    p = ptr(obj('fits', name), ())
    ev.store_g(ev.deref(fptr), p, n)
    return p


@guarded
def create_file(ev, args, n):
    fitsfile(ev, args, n, args[0], args[1], args[2])
    return ZERO


@guarded
def open_file(ev, args, n):
    # ffopentest(version, &fptr, name, mode, status)
    a = args[1:] if len(args) == 5 else args
    fitsfile(ev, args, n, a[0], a[1], a[-1])
    return ZERO


@guarded
def close_file(ev, args, n):
    return ZERO


def newhdu(ev, f, n, kind):
    h = ptr(obj('hdu', f.args[0], ev.new(), *[l.sym for l in ev.loops]), ())
    ev.store((f.args[0], (('f', 'cur'),)), h, n)
    ev.store(at(h, 'kind'), str_(kind), n)
    return h


BITPIX = {-64: 'D', -32: 'E', 32: 'J', 64: 'K', 16: 'I', 8: 'B'}


@guarded
def create_img(ev, args, n):
    f, bitpix, nax, axes = args[:4]
    b, k = T.ival(bitpix), T.ival(nax)
    if f.op != 'ptr' or b is None or k is None or k > 4:
        return NotImplemented
    h = newhdu(ev, f, n, 'image')
    ev.store(at(h, 'form'), str_(BITPIX.get(b, '?')), n)
    ev.store(at(h, 'naxis'), num(k), n)
    for j in range(k):
        v = ev.load_g(ev.deref(ev.padd(axes, num(j))), 'long', n)
        ev.store(at(h, 'naxes', num(j)), v, n)
    return ZERO


@guarded
def create_tbl(ev, args, n):
    f, typ, nrows, nf, ttype, tform, tunit, name = args[:8]
    k = T.ival(nf)
    nm = text(ev, name, n)
    if f.op != 'ptr' or k is None or k > 12 or nm is None:
        return NotImplemented
    h = newhdu(ev, f, n, 'table')
    ev.store(at(h, 'nrows'), nrows, n)
    ev.store((f.args[0], (('f', 'name:' + nm),)), h, n)
    for j in range(k):
        for tag, a in (('form', tform), ('ttype', ttype)):
            p = ev.load_g(ev.deref(ev.padd(a, num(j))), 'char *', n)
            t = text(ev, p, n)
            if t is None:
                return NotImplemented
            ev.store(at(h, '%s%d' % (tag, j + 1)), str_(t), n)
    return ZERO


@guarded
def write_key(ev, args, n):
    f, typ, key, val = args[:4]
    k = text(ev, key, n)
    h = cur(ev, f, n)
    if k is None or h is None or h.op not in ('ptr', 'ite'):
        return NotImplemented
    if T.ival(typ) == 16:
        t = text(ev, val, n)
        if t is None:
            return NotImplemented
        if k == 'EXTNAME':
            if h.op != 'ptr':
                return NotImplemented
            ev.store((f.args[0], (('f', 'name:' + t),)), h, n)
        ev.store_g(at(h, 'key:' + k), str_(t), n)
        return ZERO
    ok = typed(ev, n, 3, typ)
    v = ev.load_g(ev.deref(val), CT.get(T.ival(typ), 'double'), n)
    if ok is not True:
        v = fn('reinterpret' if ok is False else 'reinterpret?', (v, typ), v.isint)
    ev.store_g(at(h, 'key:' + k), v, n)
    return ZERO


@guarded
def read_key(ev, args, n):
    f, typ, key, val = args[:4]
    k = text(ev, key, n)
    h = cur(ev, f, n)
    ct = CT.get(T.ival(typ))
    if k is None or h is None or ct in (None, 'string') or h.op not in ('ptr', 'ite'):
        return NotImplemented
    ok = typed(ev, n, 3, typ)
    v = ev.load_g(at(h, 'key:' + k), ct, n)
    d = defined(v)
    w = readas(v, ct)
    if ok is not True:
        w = fn('reinterpret' if ok is False else 'reinterpret?', (w, typ), w.isint)
    ev.branch(d, lambda: ev.store_g(ev.deref(val), drop(w), n),
              lambda: fail(ev, args[-1], 202, n))
    return ZERO


def drop(v):
    """value where it is defined"""
    if v.op == 'ite':
        if defined(v.args[1]) is FALSE:
            return drop(v.args[2])
        if defined(v.args[2]) is FALSE:
            return drop(v.args[1])
    return v


@guarded
def movnam_hdu(ev, args, n):
    f, typ, name = args[:3]
    nm = text(ev, name, n)
    want = {0: 'image', 2: 'table', 1: 'ascii', -1: None}.get(T.ival(typ), '?')
    if f.op != 'ptr' or nm is None or want == '?':
        return NotImplemented
    h = ev.load_g((f.args[0], (('f', 'name:' + nm),)), 'hdu *', n)
    d = defined(h)
    h = drop(h)

    def go():
        kind = ev.load_g(at(h, 'kind'), 'char *', n)
        if want is not None and not (kind.op == 'str' and kind.args[0] == want):
            fail(ev, args[-1], 301, n)
            return
        ev.store((f.args[0], (('f', 'cur'),)), h, n)
    ev.branch(d, go, lambda: fail(ev, args[-1], 301, n))
    return ZERO


# ------------------------------------------------------------------ data
def copy(ev, n, count, dst, src):
    """dst(k) = src(k) for 0 <= k < count"""
    L = T.Loop(ZERO, count, n.file or ev.frames[-1].func.file, n.line, 'px')
    c = T.cval(count)
    if c is not None and c <= 12:
        for j in range(int(c)):
            dst(num(j), src(num(j)))
        return
    ev.loops.append(L)
    try:
        dst(L.sym, src(L.sym))
    finally:
        ev.loops.pop()


def form_of(ev, h, tag, n):
    v = ev.load_g(at(h, tag), 'char *', n)
    if v.op != 'str':
        return None
    t = v.args[0].lstrip('0123456789')
    return t[:1]


def offset(ev, h, fpixel, n):
    na = T.ival(ev.load_g(at(h, 'naxis'), 'int', n))
    if na is None or na < 1 or na > 3:
        return None
    off, stride = ZERO, ONE
    for j in range(na):
        p = ev.load_g(ev.deref(ev.padd(fpixel, num(j))), 'long', n)
        off = add(off, mul(stride, sub(p, ONE)))
        stride = mul(stride, ev.load_g(at(h, 'naxes', num(j)), 'long', n))
    return off


@guarded
def write_pix(ev, args, n):
    f, typ, fpixel, ne, arr = args[:5]
    h = cur(ev, f, n)
    ct = CT.get(T.ival(typ))
    if h is None or h.op != 'ptr' or ct is None:
        return NotImplemented
    form, off = form_of(ev, h, 'form', n), offset(ev, h, fpixel, n)
    if form is None or off is None:
        return NotImplemented
    ok = typed(ev, n, 4, typ)

    def src(k):
        v = ev.load_g(ev.deref(ev.padd(arr, k)), ct, n)
        if ok is not True:
            v = fn('reinterpret' if ok is False else 'reinterpret?', (v, typ), v.isint)
        return convert(v, form)
    copy(ev, n, ne, lambda k, v: ev.store_g(at(h, 'img', add(off, k)), v, n), src)
    return ZERO


@guarded
def read_pix(ev, args, n):
    f, typ, fpixel, ne, nul, arr = args[:6]
    h = cur(ev, f, n)
    ct = CT.get(T.ival(typ))
    if h is None or h.op not in ('ptr', 'ite') or ct is None:
        return NotImplemented
    off = offset(ev, h, fpixel, n)
    if off is None:
        return NotImplemented
    ok = typed(ev, n, 5, typ)
    form = form_of(ev, h, 'form', n)
    if form is None:
        return NotImplemented

    def src(k):
        v = ev.load_g(at(h, 'img', add(off, k)), 'int' if form in 'JKIB' else 'double', n)
        v = readas(v, ct)
        if ok is not True:
            v = fn('reinterpret' if ok is False else 'reinterpret?', (v, typ), v.isint)
        return v
    copy(ev, n, ne, lambda k, v: ev.store_g(ev.deref(ev.padd(arr, k)), v, n), src)
    return ZERO


@guarded
def get_img_size(ev, args, n):
    f, nlen, axes = args[:3]
    h = cur(ev, f, n)
    k = T.ival(nlen)
    if h is None or h.op not in ('ptr', 'ite') or k is None or k > 4:
        return NotImplemented
    for j in range(k):
        v = ev.load_g(at(h, 'naxes', num(j)), 'long', n)
        ev.store_g(ev.deref(ev.padd(axes, num(j))), v, n)
    return ZERO


@guarded
def get_num_rows(ev, args, n):
    f, out = args[:2]
    h = cur(ev, f, n)
    if h is None or h.op not in ('ptr', 'ite'):
        return NotImplemented
    ev.store_g(ev.deref(out), ev.load_g(at(h, 'nrows'), 'long', n), n)
    return ZERO


@guarded
def write_col(ev, args, n):
    f, typ, col, row, elem, ne, arr = args[:7]
    h = cur(ev, f, n)
    ct = CT.get(T.ival(typ))
    c = T.ival(col)
    if h is None or h.op != 'ptr' or ct is None or c is None or T.ival(elem) != 1:
        return NotImplemented
    form = form_of(ev, h, 'form%d' % c, n)
    if form is None:
        return NotImplemented
    ok = typed(ev, n, 6, typ)
    r0 = sub(row, ONE)
    old = ev.load_g(at(h, 'nrows'), 'long', n)
    new = add(r0, ne)
    if old is not new:
        ev.store(at(h, 'nrows'), new if old is ZERO else minmax('max', old, new), n)

    def src(k):
        v = ev.load_g(ev.deref(ev.padd(arr, k)), ct, n)
        if ok is not True:
            v = fn('reinterpret' if ok is False else 'reinterpret?', (v, typ), v.isint)
        return convert(v, form)
    copy(ev, n, ne, lambda k, v: ev.store(at(h, 'col%d' % c, add(r0, k)), v, n), src)
    return ZERO


@guarded
def read_col(ev, args, n):
    f, typ, col, row, elem, ne, nul, arr = args[:8]
    h = cur(ev, f, n)
    ct = CT.get(T.ival(typ))
    c = T.ival(col)
    if h is None or h.op not in ('ptr', 'ite') or ct is None or c is None or T.ival(elem) != 1:
        return NotImplemented
    form = form_of(ev, h, 'form%d' % c, n)
    ok = typed(ev, n, 7, typ)
    if form is None:
        fail(ev, args[-1], 302, n)     # no such column
        return ZERO
    r0 = sub(row, ONE)

    def src(k):
        v = ev.load_g(at(h, 'col%d' % c, add(r0, k)), 'int' if form in 'JKIB' else 'double', n)
        v = readas(v, ct)
        if ok is not True:
            v = fn('reinterpret' if ok is False else 'reinterpret?', (v, typ), v.isint)
        return v
    copy(ev, n, ne, lambda k, v: ev.store_g(ev.deref(ev.padd(arr, k)), v, n), src)
    return ZERO


MODELS = {
    'ffinit': create_file, 'ffopentest': open_file, 'ffopen': open_file, 'ffclos': close_file,
    'ffcrim': create_img, 'ffcrtb': create_tbl, 'ffpky': write_key, 'ffgky': read_key,
    'ffmnhd': movnam_hdu, 'ffppx': write_pix, 'ffgpxv': read_pix, 'ffgisz': get_img_size,
    'ffgnrw': get_num_rows, 'ffpcl': write_col, 'ffgcv': read_col,
    'sprintf': sprintf, '__builtin___sprintf_chk': sprintf}
