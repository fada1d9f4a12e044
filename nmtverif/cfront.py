"""C front end.

Runs clang (-fsyntax-only -ast-dump=json) over the translation units of /repo
and converts the dump into a compact, fully resolved tree (types, callees and
macro expansions are those of the real build).  Only declarations located in
/repo are kept.
"""
import json
import os
import subprocess
import hashlib
import pickle
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

REPO = os.environ.get('NMTVERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class FrontError(Exception):
    """The source could not be analysed (not a verdict)."""


class Node(object):
    __slots__ = ('kind', 'ch', 'name', 'type', 'op', 'value', 'ref', 'refkind',
                 'refid', 'id', 'line', 'file', 'cast', 'arrow', 'aux', 'parent')

    def __init__(self, kind):
        self.kind = kind
        self.ch = []
        self.name = None
        self.type = ''
        self.op = None
        self.value = None
        self.ref = None
        self.refkind = None
        self.refid = None
        self.id = None
        self.line = 0
        self.file = None
        self.cast = None
        self.arrow = False
        self.aux = None

    def __repr__(self):
        return '<%s %s %s:%s>' % (self.kind, self.name or self.op or self.ref
                                  or self.value or '', self.file, self.line)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.ch))


class _Conv(object):
    def __init__(self, keep):
        self.file = None
        self.line = 0
        self.keep = keep

    def bare(self, d):
        if 'file' in d:
            self.file = d['file']
        if 'line' in d:
            self.line = d['line']
        return self.file, self.line

    def loc(self, d):
        """Returns expansion location"""
        if 'spellingLoc' in d or 'expansionLoc' in d:
            r = None
            for k in d:
                if k == 'spellingLoc':
                    self.bare(d[k])
                elif k == 'expansionLoc':
                    r = self.bare(d[k])
            return r
        if 'offset' not in d:
            return None
        return self.bare(d)

    def skip(self, d):
        # keep location state correct
        for k, v in d.items():
            if k == 'loc':
                self.loc(v)
            elif k == 'range':
                self.loc(v.get('begin', {}))
                self.loc(v.get('end', {}))
            elif isinstance(v, dict):
                self.skip(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        self.skip(x)

    def node(self, d):
        n = Node(d.get('kind', '<null>'))
        n.id = d.get('id')
        for k, v in d.items():
            if k == 'loc':
                r = self.loc(v)
                if r:
                    n.file, n.line = r
            elif k == 'range':
                r = self.loc(v.get('begin', {}))
                if r and not n.line:
                    n.file, n.line = r
                self.loc(v.get('end', {}))
            elif k == 'name':
                n.name = v
            elif k == 'type':
                n.type = v.get('desugaredQualType') or v.get('qualType', '')
                n.aux = v.get('qualType')
            elif k == 'opcode':
                n.op = v
            elif k == 'value':
                n.value = v
            elif k == 'castKind':
                n.cast = v
            elif k == 'isArrow':
                n.arrow = v
            elif k == 'isPostfix':
                n.aux = v
            elif k == 'argType':
                n.aux = v.get('desugaredQualType') or v.get('qualType')
            elif k == 'referencedDecl':
                n.ref = v.get('name')
                n.refkind = v.get('kind')
                n.refid = v.get('id')
                self.skip(v)
            elif k == 'referencedMemberDecl':
                n.refid = v
            elif k == 'storageClass':
                n.cast = v
            elif k == 'hasElse':
                n.arrow = True
            elif k == 'inner':
                for c in v:
                    n.ch.append(self.node(c))
            elif isinstance(v, dict):
                self.skip(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        self.skip(x)
        if n.kind == 'UnaryOperator':
            n.aux = d.get('isPostfix', False)
        if n.kind in ('UnaryExprOrTypeTraitExpr',):
            n.name = d.get('name')
            at = d.get('argType')
            n.aux = (at.get('desugaredQualType') or at.get('qualType')) if at else None
        return n

    def top(self, d):
        out = []
        for c in d.get('inner', []):
            # the location of a top-level declaration decides whether it is kept
            save = (self.file, self.line)
            k = c.get('kind')
            # peek the location
            r = None
            if 'loc' in c:
                r = self.loc(c['loc'])
            f = r[0] if r else self.file
            self.file, self.line = save
            if f and self.keep(f) and k in ('FunctionDecl', 'VarDecl', 'RecordDecl',
                                            'TypedefDecl', 'EnumDecl'):
                out.append(self.node(c))
            else:
                self.skip(c)
        return out


def _includes():
    inc = ['-I' + os.path.join(REPO, 'src'), '-I' + REPO]
    dep = os.path.join(REPO, '_deps', 'include')
    if os.path.exists(os.path.join(dep, 'chealpix.h')):
        inc.append('-I' + dep)
    inc.append('-I' + os.path.join(VERIF, 'stubs'))
    return inc


def src_files():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.c'))


def wrap_file():
    return os.path.join(REPO, 'pymaster', 'namaster_wrap.c')


def _py_includes():
    out = []
    for p in ('/opt/venv/bin/python', 'python3'):
        try:
            o = subprocess.run([p, '-I', '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()'
                                '["include"]);print(numpy.get_include())'],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True)
            out = ['-I' + x for x in o.stdout.decode().split()]
            break
        except Exception:
            continue
    return out


def dump(path, extra=()):
    cmd = (['clang', '-w', '-fopenmp'] + _includes() + list(extra) +
           ['-fsyntax-only', '-Xclang', '-ast-dump=json', path])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (path, p.stderr.decode()[-2000:]))
    return p.stdout


def parse_tu(path, extra=(), only=None):
    raw = dump(path, extra)
    d = json.loads(raw)
    root = os.path.realpath(REPO)
    src = os.path.join(root, 'src')
    wrap = os.path.join(root, 'pymaster')
    spec = os.path.realpath(SPEC)

    def keep(f):
        f = os.path.realpath(f)
        return f.startswith(src) or f.startswith(wrap) or f.startswith(spec)
    decls = _Conv(keep).top(d)
    return decls


class Function(object):
    def __init__(self, node, file):
        self.name = node.name
        self.node = node
        self.file = file
        self.static = node.cast == 'static'
        self.params = [c for c in node.ch if c.kind == 'ParmVarDecl']
        body = [c for c in node.ch if c.kind == 'CompoundStmt']
        self.body = body[0] if body else None
        self.rtype = (node.type or '').split('(')[0].strip()
        self.line = node.line


class Program(object):
    """All the functions, records and globals of the C sources."""

    def __init__(self):
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.twice = set()    # names of static objects of several files
        self.enums = {}
        self.files = []
        self.nfuncs = 0

    def add_tu(self, path, decls):
        self.files.append(path)
        pend = None
        for d in decls:
            if d.kind == 'FunctionDecl':
                f = Function(d, path)
                if f.body is not None:
                    if os.path.realpath(d.file or path) != os.path.realpath(path) and \
                            f.name in self.funcs:
                        continue
                    key = f.name
                    if f.static and key in self.funcs:
                        key = path + '::' + key
                    elif key in self.funcs and self.funcs[key].static and not f.static:
                        o = self.funcs.pop(key)
                        self.funcs[o.file + '::' + o.name] = o
                    self.funcs[key] = f
                    self.nfuncs += 1
            elif d.kind == 'RecordDecl':
                fields = [(c.name, c.type, c.aux) for c in d.ch if c.kind == 'FieldDecl']
                if fields:
                    pend = fields
                    if d.name:
                        self.records[d.name] = fields
                    d.aux = fields
            elif d.kind == 'TypedefDecl':
                if pend is not None and d.name not in self.records and \
                        d.type and ('struct ' in d.type or d.type == d.name):
                    self.records[d.name] = pend
                pend = None
            elif d.kind == 'VarDecl':
                old = self.globals.get(d.name)
                if old is None or d.ch:
                    if old is not None and old.ch and old.file != d.file:
                        self.twice.add(d.name)
                    self.globals[d.name] = d
            elif d.kind == 'EnumDecl':
                v = 0
                for c in d.ch:
                    if c.kind == 'EnumConstantDecl':
                        for x in c.walk():
                            if x.value is not None:
                                try:
                                    v = int(x.value)
                                except ValueError:
                                    pass
                                break
                        self.enums[c.name] = v
                        v += 1

    def lookup(self, name, file=None):
        if file is not None:
            f = self.funcs.get(file + '::' + name)
            if f is not None:
                return f
        return self.funcs.get(name)


def _job(a):
    path, extra = a
    return path, parse_tu(path, extra)


def _digest(paths):
    h = hashlib.sha256()
    h.update(open(__file__, 'rb').read())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


_cache = {}


SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def spec_files():
    if not os.path.isdir(SPEC):
        return []
    return sorted(os.path.join(SPEC, f) for f in os.listdir(SPEC) if f.endswith('.c'))


def load(wrap=False):
    """Parses all of /repo/src (and the SWIG wrapper if wrap) into a Program.

    The lemma files of /verif/spec (C text that is only ever parsed) are added."""
    if wrap in _cache:
        return _cache[wrap]
    srcs = src_files()
    if not srcs:
        raise FrontError('no C sources found')
    jobs = [(p, ()) for p in srcs + spec_files()]
    if wrap:
        jobs.insert(0, (wrap_file(), tuple(_py_includes())))
    hdrs = [os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src'))
            if f.endswith('.h')]
    cfg = os.path.join(REPO, 'config.h')
    dep = [j[0] for j in jobs] + hdrs + ([cfg] if os.path.exists(cfg) else [])
    cdir = os.environ.get('NMTVERIF_CACHE')
    cfile = None
    if cdir:
        cfile = os.path.join(cdir, _digest(dep) + '.pkl')
        if os.path.exists(cfile):
            with open(cfile, 'rb') as f:
                res = pickle.load(f)
            return _build(res, jobs, wrap)
    with ProcessPoolExecutor(max_workers=min(8, len(jobs))) as ex:
        res = dict(ex.map(_job, jobs))
    if cfile:
        os.makedirs(cdir, exist_ok=True)
        with open(cfile + '.tmp%d' % os.getpid(), 'wb') as f:
            pickle.dump(res, f, protocol=4)
        os.replace(cfile + '.tmp%d' % os.getpid(), cfile)
    return _build(res, jobs, wrap)


def _build(res, jobs, wrap):
    P = Program()
    for p, _ in jobs:
        if p != wrap_file():
            P.add_tu(p, res[p])
    if wrap:
        P.add_tu(wrap_file(), res[wrap_file()])
    _cache[wrap] = P
    return P
