"""P09: files are released on every exit."""
import ast
from analysis.loader import Project, own_walk
from analysis.deps import FDeps, Deps
from analysis.report import Result

MINIMUM = 15
TECHNIQUE = ('typestate analysis of file handles over the syntax trees: every call that acquires a file, map, archive or temporary file '
             '(directly or through a helper that returns an open handle) must be bound by a with statement, closed in a finally block that is entered before anything '
             'else can fail, or handed to the caller, whose own call is then the acquisition')
ASSUMPTIONS = ['library functions given a path close what they open', 'leaving a with block closes the handle',
               'a handle handed to the standard library in an unnamed temporary is not closed in time (reference counting is not relied upon)']
OPENERS = {'open', 'builtins.open', 'io.open', 'gzip.open', 'bz2.open', 'lzma.open', 'codecs.open', 'os.fdopen', 'h5py.File', 'tables.open_file', 'netCDF4.Dataset',
           'zipfile.ZipFile', 'tarfile.open', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile', 'astropy.io.fits.open',
           'mmap.mmap', 'xarray.open_dataset', 'pandas.HDFStore', 'numpy.lib.npyio.NpzFile', 'io.FileIO', 'shelve.open',
           'fitsio.FITS', 'pandas.ExcelFile', 'pandas.ExcelWriter', 'gzip.GzipFile', 'bz2.BZ2File', 'lzma.LZMAFile', 'os.popen', 'scipy.io.FortranFile', 'scipy.io.netcdf_file',
           'os.open', 'os.scandir', 'socket.socket', 'pathlib.Path.open', 'astropy.io.fits.HDUList.fromfile'}
METHODS = {'open'}            # path.open()
CLOSERS = {'close', 'unlink', 'cleanup', 'terminate', 'release', '__exit__'}
WRAPPERS = {'contextlib.closing', 'closing'}
# opened for as long as the process lives, by design
OK = set()


class Typestate:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.D = None
        self.gives = {}           # function -> description: it returns an open handle
        self.sh = {}
        fs = [f for f in P.all_functions() if not isinstance(f.node, ast.Lambda)]
        for _ in range(4):
            ch = False
            for f in fs:
                if f not in self.gives:
                    why = self.returns_handle(f)
                    if why:
                        self.gives[f] = why
                        ch = True
            if not ch:
                break

    def shadow(self, f):
        if f not in self.sh:
            loc = {n.id for n in own_walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.params)
            self.sh[f] = loc - set(self.P.local_imports(f)) - set(f.nested)
        return self.sh[f]

    def opener(self, f, m, c):
        """what a call acquires, or None"""
        if not isinstance(c, ast.Call):
            return None
        sh = self.shadow(f) if f is not None else ()
        b = self.P.resolve_expr(m, c.func, f, sh)
        if b and b[0] in ('ext', 'ext?') and b[1] in OPENERS:
            return b[1]
        if b and b[0] == 'func' and b[1] in self.gives:
            return '%s()' % b[1].name
        if isinstance(c.func, ast.Name) and c.func.id == 'open' and (b is None or b[0] == 'builtin') and 'open' not in sh:
            return 'open'
        if isinstance(c.func, ast.Attribute) and c.func.attr in METHODS and not (b and b[0] in ('ext', 'ext?', 'mod')) and not (b and b[0] == 'func'):
            return '%s.open' % ast.unparse(c.func.value)[:30]
        if b and b[0] in ('ext', 'ext?') and b[1] == 'numpy.load':
            for k in c.keywords:
                if k.arg == 'mmap_mode' and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                    return 'numpy.load(mmap_mode)'
        return None

    def acquisitions(self, f):
        return [n for n in own_walk(f.node) if self.opener(f, f.module, n)]

    def returns_handle(self, f):
        par = parents(f.node)
        names = {}
        for c in self.acquisitions(f):
            p = carrier(par, c)
            if isinstance(p, ast.Return):
                return self.opener(f, f.module, c)
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                names[p.targets[0].id] = self.opener(f, f.module, c)
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_walk(f.node))
        if gen:
            return None
        closed = {n.func.value.id for n in own_walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CLOSERS and isinstance(n.func.value, ast.Name)}
        for n in own_walk(f.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in names and n.value.id not in closed:
                return names[n.value.id]
        return None

    def check(self, f):
        par = parents(f.node)
        for c in self.acquisitions(f):
            what = self.opener(f, f.module, c)
            where = f.where
            text = ast.unparse(c)[:60]
            verdict = self.verdict(f, par, c)
            if verdict is None:
                self.R.ok('%s: %s is released on every exit' % (where, text))
            else:
                self.R.bad('unreleased', where, what, '`%s`: %s' % (text, verdict), c.lineno)
        # acquisition of a numpy archive: np.load(...)['key'] keeps the file open
        for n in own_walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                b = self.P.resolve_expr(f.module, n.value.func, f, self.shadow(f))
                if b and b[0] in ('ext', 'ext?') and b[1] == 'numpy.load':
                    self.R.bad('unreleased', f.where, 'numpy.load', '`%s`: the archive stays open' % ast.unparse(n)[:60], n.lineno)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                b = self.P.resolve_expr(f.module, n.value.func, f, self.shadow(f))
                if b and b[0] in ('ext', 'ext?') and b[1] == 'numpy.load' and archive_use(f, n.targets[0].id) and not self.closes(f, par, n, n.targets[0].id):
                    self.R.bad('unreleased', f.where, 'numpy.load', '`%s`: the archive is used by member and not closed' % ast.unparse(n)[:60], n.lineno)

    def verdict(self, f, par, c):
        n, p = c, par.get(c)
        # `with closing(open())`, `stack.enter_context(open())`, conditional expressions
        while True:
            if isinstance(p, ast.IfExp) and n is not p.test:
                n, p = p, par.get(p)
                continue
            if isinstance(p, ast.Call) and n in p.args:
                b = self.P.resolve_expr(f.module, p.func, f, self.shadow(f))
                if b and b[0] in ('ext', 'ext?') and b[1] in WRAPPERS:
                    n, p = p, par.get(p)
                    continue
                if isinstance(p.func, ast.Attribute) and p.func.attr == 'enter_context':
                    return None
            break
        if isinstance(p, ast.withitem) and p.context_expr is n:
            return None
        if isinstance(p, ast.Return):
            return None if f in self.gives else 'the open handle is returned'
        if isinstance(p, ast.NamedExpr):
            return self.named(f, par, p, p.target.id)
        if isinstance(p, ast.Assign) and p.value is n:
            t = p.targets[0]
            if len(p.targets) == 1 and isinstance(t, ast.Name):
                return self.named(f, par, p, t.id)
            if len(p.targets) == 1 and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.self_name and f.cls is not None:
                methods = {g.name for g in f.cls.methods.values()} if isinstance(f.cls.methods, dict) else set()
                if '__exit__' in methods or 'close' in methods:
                    return None
                return 'the handle is kept in a field and the class has no way to close it'
            return 'the handle is stored where nothing closes it'
        if isinstance(p, ast.AnnAssign) and isinstance(p.target, ast.Name):
            return self.named(f, par, p, p.target.id)
        return 'the handle has no name to close it by: it is not closed if the call using it fails'

    def named(self, f, par, st, name):
        if self.closes(f, par, st, name):
            return None
        if f in self.gives and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CLOSERS and isinstance(n.func.value, ast.Name)
                                       and n.func.value.id == name for n in own_walk(f.node)):
            rest = following(par, st)
            # a fresh handle handed straight to the caller
            return None if rest and all(isinstance(r, ast.Return) or quiet(r, name) for r in rest) else 'the handle is lost if a statement before the return fails'
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CLOSERS and isinstance(n.func.value, ast.Name) and n.func.value.id == name
               for n in own_walk(f.node)):
            return 'it is closed on some paths only: an error or an early exit before the close leaves it open'
        return 'it is never closed'

    def closes(self, f, par, st, name):
        """name, bound by st, is closed whatever happens afterwards"""
        # inside the body of a try whose finally closes it
        n, p = st, par.get(st)
        while p is not None:
            if isinstance(p, ast.Try) and n in p.body and self.closed_in(p.finalbody, name):
                return True
            n, p = p, par.get(p)
        s = st
        while s is not None and not isinstance(s, ast.stmt):
            s = par.get(s)
        rest = following(par, s)
        while True:
            for r in rest:
                if isinstance(r, ast.With) and any(mentions_handle(i.context_expr, name) for i in r.items):
                    return True
                if isinstance(r, ast.Try) and self.closed_in(r.finalbody, name):
                    return True
                if isinstance(r, ast.Expr) and is_close(r.value, name):
                    return True
                if not quiet(r, name):
                    return False
            up = par.get(s)
            # the end of an if branch: what follows the if
            if isinstance(up, ast.If) and s in up.body + up.orelse:
                s = up
                rest = following(par, s)
                continue
            return False

    def closed_in(self, stmts, name):
        for s in stmts:
            for n in ast.walk(s):
                if is_close(n, name):
                    return True
                if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in n.args) and isinstance(n.func, (ast.Name, ast.Attribute)) and \
                        'close' in (n.func.id if isinstance(n.func, ast.Name) else n.func.attr).lower():
                    return True
        return False


def is_close(n, name):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CLOSERS and isinstance(n.func.value, ast.Name) and n.func.value.id == name


def mentions_handle(e, name):
    if isinstance(e, ast.Name):
        return e.id == name
    return isinstance(e, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in e.args) and \
        (isinstance(e.func, ast.Name) and e.func.id == 'closing' or isinstance(e.func, ast.Attribute) and e.func.attr in ('closing', 'enter_context'))


def quiet(s, name):
    """a statement that cannot fail or leave"""
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        return True
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
        return isinstance(s.value, (ast.Constant, ast.Name)) or isinstance(s.value, (ast.List, ast.Tuple, ast.Dict)) and not list(ast.iter_child_nodes(s.value))[1:]
    return False


def archive_use(f, name):
    return any(isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) or
               isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr == 'files' for n in own_walk(f.node))


def parents(node):
    out = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def carrier(par, c):
    p = par.get(c)
    while isinstance(p, ast.IfExp):
        p = par.get(p)
    return p


def following(par, s):
    p = par.get(s)
    for k in ('body', 'orelse', 'finalbody'):
        b = getattr(p, k, None)
        if isinstance(b, list) and s in b:
            return b[b.index(s) + 1:]
    for h in getattr(p, 'handlers', []):
        if s in h.body:
            return h.body[h.body.index(s) + 1:]
    return []


def run(tier):
    P = Project()
    R = Result()
    R.rules = {'unreleased': 'a path from the acquisition of a file to an exit of the function does not release it'}
    T = Typestate(P, R)
    n = 0
    for f in P.all_functions():
        if isinstance(f.node, ast.Lambda):
            # a lambda cannot close anything
            for c in own_walk(f.node):
                if T.opener(f, f.module, c):
                    R.bad('unreleased', f.where, T.opener(f, f.module, c), '`%s`: opened inside a lambda' % ast.unparse(c)[:60], c.lineno)
            continue
        n += 1
        T.check(f)
    for m in P.modules.values():
        par = parents(m.tree)
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for c in ast.walk(st):
                w = T.opener(None, m, c)
                if w:
                    p = par.get(c)
                    if isinstance(p, ast.withitem):
                        R.ok('%s.py: module-level with' % m.name)
                    else:
                        R.bad('unreleased', '%s.py' % m.name, w, '`%s`: opened at import and never closed' % ast.unparse(c)[:60], c.lineno)
    R.counts = {'functions': n, 'helpers_returning_handles': len(T.gives)}
    return R
