"""P08: failures are reported, not swallowed."""
import ast, json, os, re, builtins
from analysis.loader import Project, own_walk, AnalysisError
from analysis.deps import Deps, FDeps
from analysis.report import Result
from analysis import guards
from analysis import compare as C

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GDIR = os.path.join(HERE, 'specs', 'guards')
MINIMUM = 400
TECHNIQUE = ('exception-flow analysis over the syntax trees: constructed exceptions that are not raised, handlers and suppressors that end a failed read, write, '
             'call or check without raising or providing an alternative, exits from finally, tolerant library options, existence tests that turn a missing file into a '
             'result, None returned in place of a value; plus value-graph comparison of the guard slice of every function (the statements deciding whether it raises) '
             'with the recorded guards (specs/guards): an argument or state that was refused and no longer is, is the violation')
ASSUMPTIONS = ['library functions raise on unusable input', 'guards rewritten with operations the recorded ones do not use are undecided, not violations']

EXC = {n for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}
WARN = {n for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, Warning)}
IMPORTISH = {'ImportError', 'ModuleNotFoundError', 'PackageNotFoundError', 'Exception', 'BaseException', 'OSError', 'AttributeError', 'RuntimeError'}
# calls that cannot hide a failure of requested work: text handling, conversion, size queries, containers
PURE = {'str', 'float', 'int', 'len', 'round', 'abs', 'repr', 'format', 'isinstance', 'hasattr', 'getattr', 'bool', 'tuple', 'list', 'dict', 'set', 'min', 'max', 'sorted', 'range', 'enumerate', 'zip',
        'split', 'rsplit', 'rfind', 'find', 'index', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'startswith', 'endswith', 'join', 'partition', 'rpartition', 'basename', 'dirname',
        'splitext', 'append', 'group', 'groups', 'match', 'search', 'findall', 'fullmatch', 'removesuffix', 'removeprefix', 'casefold', 'splitlines', 'print', 'print_msg', 'Path', 'format_map', 'get'}
# parameters that make a library function ignore bad data
TOLERANT = {'invalid_raise': (False,), 'errors': ('ignore', 'replace', 'coerce', 'surrogateescape', 'backslashreplace'), 'on_bad_lines': ('skip', 'warn'), 'error_bad_lines': (False,),
            'ignore_errors': (True,), 'ignore_missing_end': (True,), 'ignore_missing_simple': (True,), 'ignore_blank': (), 'allow_truncated': (True,), 'output_verify': ('ignore', 'silentfix', 'silentfix+ignore'),
            'missing_ok': (), 'bounds_error': ()}
READ_METHODS = {'read', 'readline', 'readlines', 'readinto', 'write', 'writelines', 'tofile', 'writeto', 'flush', 'dump', 'savefig', 'to_csv', 'create_dataset', 'to_netcdf', 'to_zarr', 'seek'}
READ_FUNCS = {'open', 'numpy.fromfile', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.save', 'numpy.savez', 'numpy.savetxt', 'numpy.savez_compressed', 'pickle.load', 'pickle.dump', 'json.load',
              'json.dump', 'h5py.File', 'astropy.io.fits.open', 'astropy.io.fits.getdata', 'astropy.io.fits.writeto', 'struct.unpack', 'struct.pack', 'numpy.frombuffer', 'numpy.memmap', 'astropy.io.fits.getheader'}
EXISTS = {'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.access', 'os.path.lexists', 'os.path.getsize', 'os.stat'}
# value -> reason: results that depend on the existence of a file by documented design
EXISTS_OK = {
    'lightcone._get_filenames': 'a directory, a list file or an error',
    'lightcone._get_file_redshifts': 'a list file, names or an error',
    'radio_telescope_noise.get_uv_map_lightcone': 'cache file, computed when absent',
    'read_files.get_package_resource_path': 'raises when the resource is missing',
}
NONE_OK = {
    'radio_telescope_noise.signal_window': 'documented: None for a window or dimension that is not implemented',
    'line_intensity.L_CII_on_grid': 'unreachable: the recipe is asserted at the start',
    'bubble_stats.averaged_mfp': 'unreachable: the result is always set',
    'model_21cmfast.run_21cmfast_init': 'optional dependency missing', 'model_21cmfast.run_21cmfast_matter': 'optional dependency missing',
    'model_21cmfast.run_21cmfast_coeval': 'optional dependency missing', 'model_21cmfast._is_py21cmfast_installed': 'optional dependency missing',
    'radio_telescope_layout.get_latest_SKA_Low_layout': 'optional dependency missing',
}
# handlers reviewed one by one, by what they protect and what they fall back to (never by place)
REVIEWED = {
    "plot label": ("$z = ", "z_str = ''"),
    "distance undefined for a singular covariance": ("metrics['mahalanobis'] = ", "metrics['mahalanobis'] = np.nan"),
    "entropy undefined for a singular covariance": ("metrics['entropy'] = ", "metrics['entropy'] = np.nan"),
}


def plainnp(t):
    return re.sub(r'\b(np|numpy)\.(linalg\.)?|\b_np_', '', t)


def is_exc_class(P, m, e, f, shadow):
    if isinstance(e, ast.Call):
        return False
    if isinstance(e, ast.Name) and e.id in EXC and e.id not in shadow:
        b = P.lookup(m, e.id, f)
        return b is None or b[0] == 'builtin'
    b = P.resolve_expr(m, e, f, shadow) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if b and b[0] == 'class':
        return exc_class(b[1])
    return False


def exc_class(c, seen=()):
    if c in seen:
        return False
    for b in c.node.bases:
        n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ''
        if n in EXC:
            return True
    return any(exc_class(x, tuple(seen) + (c,)) for x in c.bases)


class Flow:
    def __init__(self, P, D, R):
        self.P, self.D, self.R = P, D, R
        self.ioful = {}
        self.raiser = {}
        for f in P.all_functions():
            self.ioful[f] = self.direct_io(f)
        ch = True
        while ch:
            ch = False
            for f in P.all_functions():
                if not self.ioful[f] and any(self.ioful.get(g) for g, *_ in D.sums[f].calls):
                    self.ioful[f] = True
                    ch = True

    def shadow(self, f):
        return FDeps(self.D, f).shadow if f is not None else frozenset()

    def io_call(self, f, m, c, sh):
        if not isinstance(c, ast.Call):
            return False
        b = self.P.resolve_expr(m, c.func, f, sh)
        if b and b[0] in ('ext', 'ext?') and b[1] in READ_FUNCS:
            return True
        if isinstance(c.func, ast.Name) and c.func.id == 'open':
            return True
        if isinstance(c.func, ast.Attribute) and c.func.attr in READ_METHODS and not (b and b[0] in ('ext', 'ext?')):
            return True
        return False

    def direct_io(self, f):
        sh = self.shadow(f)
        return any(self.io_call(f, f.module, n, sh) for n in own_walk(f.node))

    def repo_call(self, f, m, c, sh):
        if not isinstance(c, ast.Call):
            return None
        b = self.P.resolve_expr(m, c.func, f, sh)
        if b and b[0] in ('func', 'class'):
            return b[1]
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and f is not None and f.cls is not None and c.func.value.id == f.self_name:
            g = f.cls.methods.get(c.func.attr)
            return g
        return None

    # -- constructed but not raised -----------------------------------------------------
    def unraised(self, f):
        sh = self.shadow(f)
        par = parents(f.node)
        m = f.module
        raised = {n.exc.id for n in own_walk(f.node) if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Name)}
        for n in own_walk(f.node):
            if isinstance(n, ast.Call) and is_exc_class(self.P, m, n.func, f, sh):
                p = par.get(n)
                name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                if name in WARN:
                    continue
                q = p
                while isinstance(q, ast.IfExp):
                    q = par.get(q)
                if isinstance(q, ast.Raise):
                    self.R.ok('%s raises %s' % (f.where, name))
                    continue
                if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and q.targets[0].id in raised:
                    self.R.ok('%s raises %s' % (f.where, name))
                    continue
                if isinstance(q, ast.Attribute) and q.attr == 'with_traceback':
                    continue
                if isinstance(q, ast.Return):
                    # a factory whose result is raised by its callers
                    if self.only_raised(f):
                        self.R.ok('%s builds %s for its callers to raise' % (f.where, name))
                        continue
                    self.R.bad('not-raised', f.where, name, '%s returns a %s object as if it were a result' % (f.name, name), n.lineno)
                elif isinstance(q, ast.Expr):
                    self.R.bad('not-raised', f.where, name, '%s builds a %s but does not raise it' % (f.name, name), n.lineno)
                elif isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ('print', 'print_msg', 'str', 'repr') or isinstance(q, ast.Assign):
                    self.R.bad('not-raised', f.where, name, '%s builds a %s that is never raised' % (f.name, name), n.lineno)
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, (ast.Name, ast.Attribute)) and is_exc_class(self.P, m, n.value, f, sh):
                self.R.bad('not-raised', f.where, ast.unparse(n.value), '%s returns an exception class as if it were a result' % f.name, n.lineno)
            elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Name, ast.Attribute)) and is_exc_class(self.P, m, n.value, f, sh):
                self.R.bad('not-raised', f.where, ast.unparse(n.value), '%s names an exception without raising it' % f.name, n.lineno)

    def only_raised(self, f):
        uses = 0
        for m in self.P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and (isinstance(n.exc.func, ast.Name) and n.exc.func.id == f.name or isinstance(n.exc.func, ast.Attribute) and n.exc.func.attr == f.name):
                    uses += 1
        return uses > 0

    # -- handlers -----------------------------------------------------------------------
    def handlers(self, f, m, body_of, sh):
        tainted = self.file_data(f, sh) if f is not None else set()
        where = f.where if f is not None else '%s.py' % m.name
        for t in body_of:
            if not isinstance(t, ast.Try):
                continue
            for s in t.finalbody:
                for n in [s] + list(guards.own(s)):
                    if isinstance(n, ast.Return) or isinstance(n, (ast.Break, ast.Continue)) and not in_loop(t.finalbody, n):
                        self.R.bad('finally-exit', where, 'finally', 'a %s in finally discards the error being raised' % type(n).__name__.lower(), n.lineno)
            for h in t.handlers:
                why = self.handler(f, m, t, h, sh, tainted)
                what = 'handler of `%s`' % ast.unparse(t.body[0])[:60].replace('\n', ' ')
                if why is None:
                    self.R.ok('%s: %s' % (where, what))
                else:
                    self.R.bad('swallowed', where, what, 'the handler of `%s` %s' % (ast.unparse(h.type) if h.type else 'any error', why), h.lineno)
        # contextlib.suppress
        for n in body_of:
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    c = i.context_expr
                    b = self.P.resolve_expr(m, c.func, f, sh) if isinstance(c, ast.Call) else None
                    if b and b[0] in ('ext', 'ext?') and b[1] == 'contextlib.suppress':
                        names = {ast.unparse(a).split('.')[-1] for a in c.args}
                        if not self.harmless(f, m, n.body, sh, tainted):
                            self.R.bad('swallowed', where, 'suppress', 'errors (%s) of `%s` are suppressed' % (', '.join(sorted(names)), ast.unparse(n.body[0])[:60]), n.lineno)

    def file_data(self, f, sh):
        """names holding what was read from a file"""
        names = set()
        for _ in range(4):
            k = len(names)
            for n in own_walk(f.node):
                src, tgt = None, []
                if isinstance(n, ast.Assign):
                    src, tgt = n.value, n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                    src, tgt = n.value, [n.target]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    src, tgt = n.iter, [n.target]
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    src, tgt = n.context_expr, [n.optional_vars]
                if src is None:
                    continue
                if any(self.io_call(f, f.module, c, sh) or isinstance(c, ast.Name) and c.id in names or
                       (lambda g: g is not None and self.ioful.get(g))(self.repo_call(f, f.module, c, sh)) for c in ast.walk(src)):
                    names |= {x.id for t in tgt for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if len(names) == k:
                break
        return names

    def harmless(self, f, m, stmts, sh, tainted):
        """the statements only handle text such as file names: nothing that was asked for can fail in them"""
        for s in stmts:
            for n in [s] + list(guards.own(s)):
                if isinstance(n, (ast.Raise, ast.Assert)):
                    return False
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in tainted:
                    return False
                if isinstance(n, ast.Call):
                    name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                    b = self.P.resolve_expr(m, n.func, f, sh)
                    if b and b[0] in ('ext', 'ext?') and (b[1].startswith(('os.path.', 're.')) and b[1] not in EXISTS):
                        continue
                    if self.io_call(f, m, n, sh):
                        return False
                    if name in PURE:
                        continue
                    g = self.repo_call(f, m, n, sh)
                    if g is not None and hasattr(g, 'node') and isinstance(g.node, (ast.FunctionDef,)) and g is not f and not self.ioful.get(g) and \
                            self.harmless(g, g.module, g.node.body, self.shadow(g), set()):
                        continue
                    return False
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    return False
        return True

    def handler(self, f, m, t, h, sh, tainted):
        """None when the handler reports the failure or replaces the result, else what it does"""
        if raises_always(h.body):
            return None
        caught = {ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])} if h.type is not None else {'Exception'}
        # optional dependencies
        if import_only(t.body) and caught <= IMPORTISH:
            return None
        if caught <= {'ImportError', 'ModuleNotFoundError', 'PackageNotFoundError'}:
            return None
        if caught <= {'StopIteration', 'KeyboardInterrupt', 'GeneratorExit', 'StopAsyncIteration'}:
            return None
        if self.reviewed(t, h):
            return None
        # text of file names and the like
        if self.harmless(f, m, t.body, sh, tainted):
            return None
        src = self.inputs(t.body)
        # an alternative way of computing the same thing
        alt = [n for s in h.body for n in [s] + list(guards.own(s))]
        exc = h.name
        out = outputs(t.body)
        for n in alt:
            v = None
            if isinstance(n, ast.Return):
                v = n.value
            elif isinstance(n, (ast.Assign, ast.AugAssign)):
                if outputs([n]) & out or not out:
                    v = n.value
            if v is not None and not isinstance(v, ast.Constant) and self.alternative(v, src - {x for x in src if self.imported(f, m, x)}, exc, t.body):
                return None
        # an alternative read: another file call
        if any(self.io_call(f, m, n, sh) or (lambda g: g is not None and self.ioful.get(g))(self.repo_call(f, m, n, sh)) for n in alt):
            return None
        return 'neither raises nor provides the result another way: `%s`' % '; '.join(ast.unparse(s) for s in h.body)[:100].replace('\n', ' ')

    def inputs(self, stmts):
        return {n.id for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}

    def imported(self, f, m, name):
        if f is not None and (name in f.params or any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in own_walk(f.node))):
            return False
        b = self.P.lookup(m, name, f)
        return b is not None and b[0] in ('ext', 'ext?', 'mod', 'func', 'class', 'builtin')

    def alternative(self, v, src, exc, body):
        """a substitute computed from the same inputs (a filler counts only for a filler)"""
        if filler(v) and not any(filler(n) for s in body for n in ast.walk(s)):
            return False
        names = {n.id for n in ast.walk(v) if isinstance(n, ast.Name)} - {exc}
        return bool(names & src)

    def reviewed(self, t, h):
        b = ' ; '.join(ast.unparse(s) for s in t.body)
        r = ' ; '.join(ast.unparse(s) for s in h.body if not (isinstance(s, ast.Pass) or isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and s.value.value is None))
        return any(x in b and plainnp(y) == plainnp(r) for x, y in REVIEWED.values())

    # -- tolerant options ---------------------------------------------------------------
    def tolerant(self, f):
        for n in own_walk(f.node):
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg in TOLERANT and isinstance(k.value, ast.Constant) and any(k.value.value is v or k.value.value == v and isinstance(v, str) for v in TOLERANT[k.arg]):
                        self.R.bad('tolerant', f.where, k.arg, '`%s` is told to skip bad data (%s=%r)' % (ast.unparse(n.func)[:40], k.arg, k.value.value), n.lineno)

    # -- None in place of a value ---------------------------------------------------------
    def nones(self, f):
        if isinstance(f.node, ast.Lambda) or not f.public or f.parent is not None:
            return
        rets = [n for n in own_walk(f.node) if isinstance(n, ast.Return)]
        val = [r for r in rets if r.value is not None and not is_none(r.value)]
        if not val or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_walk(f.node)):
            return
        bad = [r.lineno for r in rets if r not in val] + [s.lineno for s in print_ends(f.node.body)]
        if f.qual in NONE_OK:
            self.R.ok('%s: %s' % (f.where, NONE_OK[f.qual]))
        elif bad:
            self.R.bad('none-result', f.where, 'None', '%s gives None instead of a result on some paths' % f.name, bad[0])
        else:
            self.R.ok('%s returns a value on every path' % f.where)

    # -- missing files --------------------------------------------------------------------
    def missing(self, f):
        sh = self.shadow(f)
        par = parents(f.node)
        for n in own_walk(f.node):
            b = self.P.resolve_expr(f.module, n.func, f, sh) if isinstance(n, ast.Call) else None
            if not (b and b[0] in ('ext', 'ext?') and b[1] in EXISTS):
                continue
            if f.qual in EXISTS_OK:
                self.R.ok('%s: %s' % (f.where, EXISTS_OK[f.qual]))
                continue
            # the branch taken when the file is absent must raise, read elsewhere or create it
            t, p = n, par.get(n)
            while p is not None and not isinstance(p, (ast.If, ast.IfExp, ast.Assert, ast.While, ast.stmt)):
                t, p = p, par.get(p)
            if isinstance(p, ast.Assert):
                self.R.ok('%s: asserts that the file exists' % f.where)
                continue
            if isinstance(p, ast.If):
                if self.creates(p):
                    self.R.ok('%s: creates what is missing' % f.where)
                    continue
                rest = after(par, p)
                absent = absent_branch(p, n)
                if absent is None:
                    absent = [p.orelse + rest, p.body + rest]
                else:
                    absent = [absent + (rest if not leaves(absent) else [])]
                if any(self.answers(f, a, sh) for a in absent):
                    self.R.ok('%s: a missing file is replaced or reported' % f.where)
                    continue
                self.R.bad('missing-file', f.where, b[1], '`%s`: a missing file is passed over' % ast.unparse(p.test)[:60], p.lineno)

    def creates(self, p):
        return any(isinstance(c, ast.Call) and isinstance(c.func, (ast.Attribute, ast.Name)) and (c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id) in ('makedirs', 'mkdir')
                   for c in ast.walk(p))

    def answers(self, f, stmts, sh):
        """the statements raise, or do the work (read, compute) themselves"""
        for s in stmts:
            for n in [s] + list(guards.own(s)):
                if isinstance(n, (ast.Raise, ast.Assert)):
                    return True
                if self.io_call(f, f.module, n, sh):
                    return True
                g = self.repo_call(f, f.module, n, sh)
                if g is not None and getattr(g, 'name', '') not in ('print_msg',):
                    return True
        return False


FILLERS = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'list', 'dict', 'tuple', 'set', 'resize', 'pad', 'nan_to_num'}


def filler(v):
    return isinstance(v, ast.Call) and (v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else '') in FILLERS


def parents(node):
    out = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def in_loop(stmts, n):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.For, ast.While)) and any(y is n for y in ast.walk(x)):
                return True
    return False


def leaves(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def after(par, s):
    p = par.get(s)
    for k in ('body', 'orelse', 'finalbody'):
        b = getattr(p, k, None)
        if isinstance(b, list) and s in b:
            r = b[b.index(s) + 1:]
            return r + (after(par, p) if isinstance(p, (ast.If, ast.With, ast.Try, ast.For)) else [])
    return []


def absent_branch(p, n):
    """statements run when the file named in the existence test n does not exist (test: exists / not exists)"""
    t, neg = p.test, False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, neg = t.operand, not neg
    if t is n:
        return list(p.body) if neg else list(p.orelse)
    if isinstance(t, ast.BoolOp):
        # exists(..) and x: the orelse is run when absent; not exists(..) or x: the body
        if isinstance(t.op, ast.And) and any(v is n for v in t.values) and not neg:
            return list(p.orelse)
        if isinstance(t.op, ast.Or) and any(isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) and v.operand is n for v in t.values) and not neg:
            return list(p.body)
    return None


def raises_always(stmts):
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and raises_always(s.body) and raises_always(s.orelse):
            return True
        if isinstance(s, (ast.With,)) and raises_always(s.body):
            return True
        if isinstance(s, ast.Try) and s.handlers and raises_always(s.body) and all(raises_always(h.body) for h in s.handlers):
            return True
        if isinstance(s, ast.Try) and not s.handlers and raises_always(s.body):
            return True
        if isinstance(s, ast.Try) and s.handlers and all(raises_always(h.body) for h in s.handlers) and any(isinstance(x, ast.Return) for x in s.body):
            return True          # the protected code returns an alternative, its failure is raised
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def import_only(stmts):
    """the protected statements only import something (and note that they did)"""
    imp = False
    for s in stmts:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            imp = True
            continue
        if isinstance(s, ast.Assign) and (isinstance(s.value, (ast.Constant, ast.Name)) or imp):
            continue
        if isinstance(s, ast.Return) and imp:
            continue
        if isinstance(s, ast.If) and imp:
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == '__import__':
            imp = True
            continue
        return False
    return imp


def outputs(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                out.add(ast.unparse(n))
    return out


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def print_ends(stmts):
    """message statements a function ends with after a branch (the value it should return is replaced by a message)"""
    if not stmts:
        return []
    s = stmts[-1]
    if isinstance(s, ast.If):
        return print_ends(s.body) + print_ends(s.orelse)
    if isinstance(s, (ast.With,)):
        return print_ends(s.body)
    if isinstance(s, ast.Try):
        return print_ends(s.body if not s.orelse else s.orelse) + [x for h in s.handlers for x in print_ends(h.body)]
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        n = s.value.func.id if isinstance(s.value.func, ast.Name) else s.value.func.attr if isinstance(s.value.func, ast.Attribute) else ''
        if n in ('print', 'print_msg', 'warn', 'warning', 'error', 'info'):
            return [s]
    if isinstance(s, ast.Pass):
        return [s]
    return []


# -- recorded guards -----------------------------------------------------------------------------------

SHARED = None
# settings for functions whose guards are too many to follow with every parameter left open
CASES = {'lightcone._get_output_z': [{'z_low': '@float', 'z_high': '@float', 'dnu': '@float', 'box_length_mpc': '@float', 'file_redshifts': '@arr1'},
                                     {'z_low': '@float', 'z_high': '@float', 'dnu': None, 'box_length_mpc': '@float', 'file_redshifts': '@arr1'}]}


def guard_job(q):
    """the first case that finds something decides"""
    out = None
    for case in CASES.get(q, [{}]):
        r = guard_case(q, case)
        if out is None or r[1] == 'bad' or r[1] == 'skip' and out[1] == 'ok':
            out = r
        if out[1] == 'bad':
            break
    return out


def guard_case(q, case):
    P, PR, opaque = SHARED
    f, g = C.find(P, q), C.find(PR, q)
    if g is None:
        raise AnalysisError('recorded guard of %s is missing' % q)
    if f is None:
        return q, 'skip', 'no such function in the current tree', None
    private = f.name.startswith('_') and not f.name.startswith('__')
    rename = None
    if private and len(f.pos) == len(g.pos):
        rename = dict(zip(f.pos, g.pos))
    elif not private and set(g.params) - set(f.params):
        return q, 'skip', 'parameters changed', None
    sp = C.Spec(q, opaque=opaque - {q}, limit=20)
    inv = {v: k for k, v in rename.items()} if rename else {}
    r, why = C.guarded(sp.limit, lambda: C.evaluate(PR, g, sp, case))
    if r is None:
        return q, 'skip', 'recorded guard ' + why, None
    ref = r[0]
    r, why = C.guarded(sp.limit, lambda: C.evaluate(P, f, sp, {inv.get(k, k): v for k, v in case.items()}, rename))
    if r is None:
        return q, 'skip', why, None
    cur = r[0]
    if cur.fp == ref.fp:
        return q, 'ok', None, None
    ra = C.atoms_of(ref)
    reason = 'differs only in arguments that are refused in addition'
    for path, x, y in C.pairs(cur, ref) or ():
        if is_raise(y) and not is_raise(x):
            why = C.judge(path, x, y, ref, ra) or unfollowed(path, ra)
            if why is not None and whichever(path, cur, ref):
                path = [p for p in path if not on_exc(p[0])]
                why = C.judge(path, x, y, ref, ra) or unfollowed(path, ra)
            if why is None:
                cond = ' and '.join(('%r' % (at,)) if v else 'not (%r)' % (at,) for at, v in path[-4:])
                return q, 'bad', cond[:200] or 'always', f.node.lineno
            reason = why
    return q, 'skip', reason, None


def on_exc(atom):
    return any(h.startswith('cond:exc') for h in atom.hds)


def whichever(path, cur, ref):
    """the two outcomes differ under the rest of the path whatever raised before"""
    from analysis.terms import cof
    from analysis.vg import leaves
    for atom, val in path:
        if not on_exc(atom):
            cur, ref = cof(cur, atom, val), cof(ref, atom, val)
    return all(is_raise(v) for v in leaves(ref)) and not any(is_raise(v) for v in leaves(cur))


def unfollowed(path, ref_atoms):
    """a difference that rests on which statement raised first, or on the state an object is left in by a method it was handed to"""
    for atom, val in path:
        if any(h.startswith('cond:exc') for h in atom.hds):
            return 'depends on which statement raises'
        if atom.fp not in ref_atoms and re.search(r'obj\(|getattr|attr\{|foldx|index\(fread', repr(atom)):
            return 'depends on the state of an object'
    return None


def is_raise(v):
    from analysis.terms import Raise
    return isinstance(v, Raise)


def recorded(P0, R):
    global SHARED
    import multiprocessing as mp
    table = json.load(open(os.path.join(GDIR, 'table.json')))
    P = Project(transform=guards.transform(table['known']))
    extra = {}
    for fn in sorted(os.listdir(GDIR)):
        if fn.endswith('.py'):
            extra[fn[:-3]] = open(os.path.join(GDIR, fn), encoding='utf-8').read()
    PR = Project(extra=extra)
    SHARED = (P, PR, set(table['functions']))
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        out = pool.map(guard_job, table['rows'], chunksize=1)
    n = 0
    for q, st, what, line in out:
        f = C.find(P, q)
        if st == 'ok':
            n += 1
            R.ok('%s refuses what it is recorded to refuse' % q)
        elif st == 'skip':
            R.skip('guards of %s' % q, what)
        else:
            R.bad('guard-lost', f.where, 'guard', '%s no longer raises when %s' % (f.name, what), line)
    R.counts['guard_slices'] = len(out)
    R.counts['guard_slices_equal'] = n


def unresolved(P, D, f, seen=None):
    """does f, or a function it calls, call a method by a name of the package on an object that is not followed?"""
    seen = set() if seen is None else seen
    if f in seen:
        return False
    seen.add(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in D.repo_methods and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in f.params and n.func.value.id != f.self_name:
            return True
    return any(unresolved(P, D, c[0], seen) for c in D.sums[f].calls)


def run(tier):
    P = Project()
    D = Deps(P)
    R = Result()
    R.rules = {'not-raised': 'an exception object is built or returned but not raised',
               'swallowed': 'a handler or suppressor ends a failure without raising or providing the result another way',
               'finally-exit': 'leaving a finally block early discards the error being raised',
               'tolerant': 'a library call is told to ignore malformed data',
               'missing-file': 'a missing file leads to an ordinary return',
               'none-result': 'None takes the place of a result',
               'guard-lost': 'an argument or state the function refused is accepted',
               'raise-lost': 'a parameter no longer decides whether the function raises'}
    F = Flow(P, D, R)
    for f in P.all_functions():
        if f.module.name == 'test_case':
            continue
        sh = F.shadow(f)
        F.unraised(f)
        F.handlers(f, f.module, [n for n in own_walk(f.node)], sh)
        F.tolerant(f)
        F.nones(f)
        F.missing(f)
    for m in P.modules.values():
        todo, nodes = list(m.tree.body), []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            if isinstance(n, ast.If) and '__main__' in ast.unparse(n.test):
                continue
            nodes.append(n)
            todo += list(ast.iter_child_nodes(n))
        F.handlers(None, m, nodes, frozenset())
    table = json.load(open(os.path.join(GDIR, 'raises.json')))
    for f in P.all_functions():
        want = table.get(f.qual)
        if not want or not f.public:
            continue
        have = {t[1] for t in D.sums[f].raises if t[0] == 'p'}
        lost = sorted((set(want) & set(f.params)) - have)
        if lost and set(lost) >= set(want):
            if unresolved(P, D, f):
                R.skip(f.where, 'calls methods of objects that are not followed')
                continue
            R.bad('raise-lost', f.where, ','.join(lost), '%s raises for no value of its arguments any more (was %s)' % (f.name, ', '.join(lost)), f.node.lineno)
        else:
            R.ok('%s: errors decided by %s' % (f.where, ', '.join(want)))
    recorded(P, R)
    return R
