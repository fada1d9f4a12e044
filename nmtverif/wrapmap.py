"""What each SWIG wrapper function does with its Python arguments, read from the wrapper source.

For `_wrap_X(args)` the position of every Python argument, its conversion (array of a type and rank,
handle of a record, int, double, string, requested output size) and the C parameter it reaches."""
import os
import re
from . import cfront


class WArg(object):
    def __init__(self, name, kind, ctype='', nd=0, cparam=None):
        self.name, self.kind, self.ctype, self.nd = name, kind, ctype, nd
        self.dims = []               # C parameter names receiving the sizes

    def __repr__(self):
        return '%s:%s%s' % (self.name, self.kind, '[%d]' % self.nd if self.nd else '')


class Wrapper(object):
    def __init__(self, name, cname):
        self.name, self.cname = name, cname
        self.args = []
        self.ret = 'void'
        self.order = []              # C arguments: arg1 .. argn of the call
        self.guarded = False
        self.caught = False
        self.line = 0

    def __repr__(self):
        return '%s(%s)->%s' % (self.name, ', '.join(map(repr, self.args)), self.ret)


def _param_names(P, cname):
    f = P.lookup(cname) if P is not None else None
    if f is None:
        return None, None
    return [p.name for p in f.params], f.rtype


def wrappers(P, repo=None):
    path = os.path.join(repo or cfront.REPO, 'pymaster', 'namaster_wrap.c')
    src = open(path).read()
    out = {}
    for m in re.finditer(r'^SWIGINTERN PyObject \*_wrap_(\w+)\(PyObject \*.*?\n\}', src, re.M | re.S):
        body = m.group(0)
        name = m.group(1)
        call = re.search(r'(?:(result) = )?(?:\((?P<cast>[^()]*)\))?\s*(?P<f>\w+)\((?P<a>arg1[^;]*|)\);\s*\n', body)
        st = re.search(r'if \(arg1\) \(arg1\)->(\w+) = ', body)
        ge = re.search(r'result = .*\(\(arg1\)->(\w+)\)', body)
        if ge or st or name.startswith(('new_', 'delete_')):
            continue
        call = None
        for c in re.finditer(r'(?:result = )?(?:\([^()]*\))?\s*(\b[A-Za-z_]\w*)\(((?:\(?[^(),;]*\)?arg\d+,?)*)\);', body):
            if c.group(1).startswith(('SWIG', 'Py', 'if', 'free')) or c.group(1) in ('require_dimensions',):
                continue
            call = c
        if call is None:
            continue
        cname = call.group(1)
        if cname.startswith(('SWIG_', 'Py', 'array_')):
            continue
        w = Wrapper(name, cname)
        w.line = src[:m.start()].count('\n') + 1
        w.order = re.findall(r'arg\d+', call.group(2))
        names, ret = _param_names(P, cname)
        if names is None or len(names) != len(w.order):
            continue
        cn = dict(zip(w.order, names))
        w.ret = ret
        w.cparams = names
        pos = body[:call.start()]
        w.guarded = bool(re.search(r'try \{\s*$', pos[pos.rfind('try'):] if 'try' in pos else ''))
        w.caught = bool(re.search(r'finally\s*\{\s*SWIG_exception', body[call.end():]))
        n = re.search(r'SWIG_Python_UnpackTuple\(args, "\w+", (\d+), (\d+)', body)
        nargs = int(n.group(2)) if n else (1 if 'swig_obj[0] = args' in body else 0)
        a = {}
        # text between uses of one swig_obj and the next belongs to that argument
        uses = [(u.start(), int(u.group(1))) for u in re.finditer(r'swig_obj\[(\d+)\]', body)]
        ok = True
        for k in range(nargs):
            us = [u for u, i in uses if i == k]
            if not us:
                ok = False
                break
            if k == 0 and 'swig_obj[0] = args' in body:
                us = us[1:] or us
            beg = us[0]
            later = [u for u, i in uses if i > k and u > beg]
            end = min(later) if later else call.start()
            # keep the statement containing the first use
            beg = body.rfind('\n', 0, beg) + 1
            seg = body[beg:end]
            cv = re.search(r'SWIG_ConvertPtr\(swig_obj\[%d\], &argp\d+,\s*SWIGTYPE_p_(\w+)' % k, seg)
            if cv:
                an = re.search(r'(arg\d+) = \(([^()]*)\)\(argp', seg)
                if an:
                    a[k] = WArg(cn[an.group(1)], 'handle', an.group(2).replace('*', '').strip())
                    continue
            cv = re.search(r'obj_to_array_contiguous_allow_conversion\(swig_obj\[%d\],\s*NPY_(\w+)' % k, seg)
            if cv:
                nd = re.search(r'require_dimensions\(array\d+, (\d+)\)', seg)
                da = re.search(r'(arg\d+) = \([^()]*\)\s*array_data\(', seg)
                if da and nd:
                    x = WArg(cn[da.group(1)], 'array', 'int' if 'INT' in cv.group(1) else 'double',
                             int(nd.group(1)))
                    x.dims = [(cn[g[0]], int(g[1])) for g in re.findall(
                        r'(arg\d+) = \([^()]*\)\s*array_size\(array\d+,\s*(\d+)\)', seg)]
                    a[k] = x
                    continue
            if 'PyInt_Check(swig_obj[%d])' % k in seg:
                da = re.search(r'(arg\d+) = \([^()]*\)\s*array_data\(', seg)
                sz = re.search(r'(arg\d+) = \([^()]*\)\s*PyInt_AsLong\(swig_obj', seg)
                ty = re.search(r'PyArray_SimpleNew\(1, dims, NPY_(\w+)\)', seg)
                if da and ty:
                    x = WArg(cn[da.group(1)], 'size', 'int' if 'INT' in ty.group(1) else 'double')
                    if sz:
                        x.dims = [(cn[sz.group(1)], 0)]
                        x.sztype = re.search(r'%s = \(([^()]*)\)' % sz.group(1), seg).group(1)
                    a[k] = x
                    continue
            cv = re.search(r'SWIG_AsVal_(\w+)\(swig_obj\[%d\]' % k, seg)
            if cv:
                an = re.search(r'(arg\d+) = \([^()]*\)\(val\d+\)', seg)
                if an:
                    a[k] = WArg(cn[an.group(1)], 'double' if cv.group(1) == 'double' else 'int',
                                cv.group(1))
                    continue
            if 'SWIG_AsCharPtrAndSize(swig_obj[%d]' % k in seg:
                an = re.search(r'(arg\d+) = \([^()]*\)\(buf\d+\)', seg)
                if an:
                    a[k] = WArg(cn[an.group(1)], 'str', 'char')
                    continue
            ok = False
            break
        if not ok:
            continue
        w.args = [a[k] for k in range(nargs)]
        out[name] = w
    return out
