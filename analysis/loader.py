"""Parse the package under analysis and resolve names across its modules.

Nothing here imports or runs the package: every answer comes from the syntax trees of the
files found in /repo/src/tools21cm at the time of the run.
"""
import ast, os, re, sys, builtins, warnings
warnings.simplefilter('ignore', SyntaxWarning)

REPO = os.environ.get('T2C_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'tools21cm')
sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """An anchor vanished or the source cannot be analysed: the check has no answer (exit 2)."""


class Func:
    def __init__(self, name, qual, node, module, cls=None, parent=None):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.cls, self.parent = cls, parent
        self.nested = {}
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.is_static = any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                             for d in getattr(node, 'decorator_list', []))
        self.is_classmethod = any(isinstance(d, ast.Name) and d.id == 'classmethod'
                                  for d in getattr(node, 'decorator_list', []))
        self.is_property = any(isinstance(d, ast.Name) and d.id == 'property'
                               for d in getattr(node, 'decorator_list', []))

    @property
    def params(self):
        return self.pos + self.kwonly + ([self.vararg] if self.vararg else []) + ([self.kwarg] if self.kwarg else [])

    @property
    def user_params(self):
        ps = self.pos[1:] if (self.cls and not self.is_static) else list(self.pos)
        return ps + self.kwonly

    @property
    def self_name(self):
        return self.pos[0] if (self.cls and not self.is_static and self.pos) else None

    @property
    def public(self):
        if self.parent is not None:
            return False
        n = self.name
        if self.cls and self.cls.name.startswith('_'):
            return False
        return not n.startswith('_') or (self.cls is not None and n in ('__init__', '__call__'))

    @property
    def where(self):
        return '%s.py:%s' % (self.module.name, self.qual.split('.', 1)[1])

    @property
    def doc(self):
        try:
            return ast.get_docstring(self.node) or ''
        except TypeError:
            return ''

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    def __init__(self, name, qual, node, module):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.methods = {}
        self.class_attrs = set()
        self.bases = []

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module:
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.env = {}        # name -> binding
        self.vars = set()    # module-level variables assigned here
        self.funcs, self.classes = {}, {}
        self.all_funcs = []  # incl. methods & nested
        self.star = []       # star-imported repo modules
        self.ext_star = []   # star-imported external modules
        self.exported = None

    def __repr__(self):
        return '<Module %s>' % self.name


def is_const_none(n):
    return isinstance(n, ast.Constant) and n.value is None


class Project:
    def __init__(self, src=None, extra=None, transform=None):
        self.src = src or SRC
        self.modules = {}
        files = {}
        if not os.path.isdir(self.src):
            raise AnalysisError('package directory %s not found' % self.src)
        for fn in sorted(os.listdir(self.src)):
            if fn.endswith('.py'):
                files[fn[:-3]] = os.path.join(self.src, fn)
        for name, path in files.items():
            if name in (extra or {}):
                continue
            with open(path, encoding='utf-8') as f:
                source = f.read()
            try:
                tree = ast.parse(source, path)
            except SyntaxError as e:
                raise AnalysisError('%s does not parse: %s' % (path, e))
            self.modules[name] = Module(name, path, transform(tree, name) if transform else tree, source)
        for name, src_text in (extra or {}).items():
            self.modules[name] = Module(name, name, ast.parse(src_text), src_text)
        for m in self.modules.values():
            self._collect(m)
        for m in self.modules.values():
            self._imports(m)
        self._star()
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if r and r[0] == 'class':
                        c.bases.append(r[1])
        init = self.modules.get('__init__')
        self.exported_modules = set()
        if init:
            self.exported_modules = {m for m in init.star} | {b[1].name for b in init.env.values() if b[0] == 'mod'}

    # -- construction -----------------------------------------------------------------
    def _collect(self, m):
        def add_func(node, cls, parent, prefix):
            f = Func(node.name, prefix + '.' + node.name, node, m, cls, parent)
            m.all_funcs.append(f)
            for sub in own_nested(node):
                if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f.nested[sub.name] = add_func(sub, None, f, f.qual)
            return f

        def visit(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = add_func(st, None, None, m.name)
                    m.funcs[st.name] = f
                    m.env[st.name] = ('func', f)
                elif isinstance(st, ast.ClassDef):
                    c = Class(st.name, m.name + '.' + st.name, st, m)
                    for s2 in st.body:
                        if isinstance(s2, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            c.methods[s2.name] = add_func(s2, c, None, c.qual)
                        elif isinstance(s2, ast.Assign):
                            for t in s2.targets:
                                for n in ast.walk(t):
                                    if isinstance(n, ast.Name):
                                        c.class_attrs.add(n.id)
                        elif isinstance(s2, ast.AnnAssign) and isinstance(s2.target, ast.Name):
                            c.class_attrs.add(s2.target.id)
                    m.classes[st.name] = c
                    m.env[st.name] = ('class', c)
                elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With)):
                    targets = []
                    if isinstance(st, ast.Assign):
                        targets = st.targets
                    elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
                        targets = [st.target]
                    elif isinstance(st, ast.For):
                        targets = [st.target]
                    elif isinstance(st, ast.With):
                        targets = [i.optional_vars for i in st.items if i.optional_vars]
                    for t in targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                m.vars.add(n.id)
                                m.env.setdefault(n.id, ('var', m, n.id))
                    if isinstance(st, (ast.For, ast.With)):
                        visit(st.body)
                elif isinstance(st, ast.If):
                    if is_main_guard(st.test):
                        continue
                    visit(st.body)
                    visit(st.orelse)
                elif isinstance(st, ast.Try):
                    visit(st.body)
                    for h in st.handlers:
                        visit(h.body)
                    visit(st.orelse)
                    visit(st.finalbody)
        visit(m.tree.body)
        # `global x` names assigned inside functions are module variables too
        for f in m.all_funcs:
            gl = {n for s in own_walk(f.node) if isinstance(s, ast.Global) for n in s.names}
            f.globals_ = gl
            for n in gl:
                m.vars.add(n)
                m.env.setdefault(n, ('var', m, n))

    def import_bindings(self, m, st):
        """[(local name, binding)] for one import statement ('*' entries are returned as name '*')."""
        out = []
        if isinstance(st, ast.Import):
            for a in st.names:
                top = a.name.split('.')[0]
                if top == 'tools21cm':
                    sub = a.name.split('.')[1:] or ['__init__']
                    if not a.asname:
                        sub = ['__init__']
                    b = ('mod', self.modules[sub[0]]) if sub[0] in self.modules else ('ext', a.name)
                    out.append((a.asname or top, b))
                    continue
                if a.asname:
                    out.append((a.asname, ('ext', a.name)))
                else:
                    out.append((top, ('ext', top)))
        elif isinstance(st, ast.ImportFrom):
            modname = st.module or ''
            base = None
            if st.level:
                base = modname
            elif modname == 'tools21cm' or modname.startswith('tools21cm.'):
                base = modname[len('tools21cm'):].lstrip('.')
            if base is not None:
                if base == '':
                    for a in st.names:
                        if a.name == '*':
                            out.append(('*', ('mod', self.modules['__init__'])))
                        elif a.name in self.modules:
                            out.append((a.asname or a.name, ('mod', self.modules[a.name])))
                        else:
                            out.append((a.asname or a.name, ('ref', '__init__', a.name)))
                elif base in self.modules:
                    for a in st.names:
                        if a.name == '*':
                            out.append(('*', ('mod', self.modules[base])))
                        else:
                            out.append((a.asname or a.name, ('ref', base, a.name)))
                else:
                    for a in st.names:
                        out.append((a.asname or a.name, ('ext', 'tools21cm.' + base + '.' + a.name)))
            else:
                for a in st.names:
                    if a.name == '*':
                        out.append(('*', ('ext', modname)))
                    else:
                        out.append((a.asname or a.name, ('ext', modname + '.' + a.name)))
        return out

    def _imports(self, m):
        def visit(stmts):
            for st in stmts:
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    for n, b in self.import_bindings(m, st):
                        if n == '*':
                            if b[0] == 'mod':
                                m.star.append(b[1].name)
                            else:
                                m.ext_star.append(b[1])
                        else:
                            cur = m.env.get(n)
                            if cur is None or cur[0] == 'var':
                                m.env[n] = b
                elif isinstance(st, ast.If):
                    if not is_main_guard(st.test):
                        visit(st.body); visit(st.orelse)
                elif isinstance(st, ast.Try):
                    visit(st.body)
                    for h in st.handlers:
                        visit(h.body)
                    visit(st.orelse); visit(st.finalbody)
                elif isinstance(st, ast.With):
                    visit(st.body)
        visit(m.tree.body)

    def _star(self):
        changed = True
        while changed:
            changed = False
            for m in self.modules.values():
                own = set(m.funcs) | set(m.classes) | m.vars
                for s in reversed(m.star):
                    src = self.modules[s]
                    for n, b in list(src.env.items()):
                        if n.startswith('_'):
                            continue
                        if n in own:
                            continue
                        cur = m.env.get(n)
                        if cur is None:
                            m.env[n] = b
                            changed = True
        # `from .a import f` where a is later resolved
        def deref(b, seen=()):
            while b and b[0] == 'ref':
                key = (b[1], b[2])
                if key in seen:
                    return None
                seen = seen + (key,)
                mod = self.modules[b[1]]
                nb = mod.env.get(b[2])
                if nb is None and b[2] in self.modules:
                    return ('mod', self.modules[b[2]])
                if nb is None:
                    return ('missing', b[1], b[2])
                b = nb
            return b
        self.deref = deref
        for m in self.modules.values():
            for n, b in list(m.env.items()):
                m.env[n] = deref(b)

    # -- queries ----------------------------------------------------------------------
    def local_imports(self, f):
        """name -> binding for imports inside function f (cached)."""
        if not hasattr(f, '_limp'):
            d = {}
            for st in own_walk(f.node):
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    for n, b in self.import_bindings(f.module, st):
                        if n != '*':
                            d[n] = self.deref(b)
            f._limp = d
        return f._limp

    def lookup(self, m, name, func=None):
        """binding of a free name in module m (or inside func, for its imports / nested functions)."""
        g = func
        while g is not None:
            li = self.local_imports(g)
            if name in li:
                return li[name]
            if name in g.nested:
                return ('func', g.nested[name])
            g = g.parent
        b = m.env.get(name)
        if b is not None:
            return b
        for e in m.ext_star:
            return ('ext?', e + '.' + name) if not hasattr(builtins, name) else ('builtin', name)
        if hasattr(builtins, name):
            return ('builtin', name)
        return None

    def member(self, b, attr):
        """binding of b.attr"""
        if b is None:
            return None
        if b[0] == 'mod':
            mod = b[1]
            r = mod.env.get(attr)
            if r is None and attr in self.modules and mod.name == '__init__':
                return ('mod', self.modules[attr])
            return r if r is not None else ('missing', mod.name, attr)
        if b[0] in ('ext', 'ext?'):
            return (b[0], b[1] + '.' + attr)
        if b[0] == 'class':
            meth = self.find_method(b[1], attr)
            if meth:
                return ('func', meth)
        return None

    def resolve_expr(self, m, e, func=None, shadow=()):
        """binding for a dotted expression that is statically a module/function/class, else None."""
        if isinstance(e, ast.Name):
            if e.id in shadow:
                return None
            return self.lookup(m, e.id, func)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, func, shadow)
            if b and b[0] in ('mod', 'ext', 'ext?', 'class'):
                return self.member(b, e.attr)
        return None

    def find_method(self, cls, name, seen=()):
        if name in cls.methods:
            return cls.methods[name]
        for b in cls.bases:
            if b not in seen:
                r = self.find_method(b, name, seen + (cls,))
                if r:
                    return r
        return None

    def subclasses(self, cls):
        return [c for m in self.modules.values() for c in m.classes.values() if cls in c.bases]

    def all_functions(self):
        for m in self.modules.values():
            for f in m.all_funcs:
                yield f

    def func(self, qual):
        """qual = 'module.func' or 'module.Class.method'; AnalysisError when the public anchor is gone."""
        parts = qual.split('.')
        m = self.modules.get(parts[0])
        if m:
            if len(parts) == 2:
                b = m.env.get(parts[1])
                if b and b[0] == 'func':
                    return b[1]
            elif len(parts) == 3:
                b = m.env.get(parts[1])
                if b and b[0] == 'class':
                    r = self.find_method(b[1], parts[2])
                    if r:
                        return r
        raise AnalysisError('anchor %s is not in the source any more' % qual)


def is_main_guard(t):
    return (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__')


_walk_cache = {}


def own_walk(node):
    """walk a function body without descending into nested function/class definitions."""
    if isinstance(node, list):
        return list(_own_walk(node))
    r = _walk_cache.get(id(node))
    if r is None or r[0] is not node:
        r = (node, list(_own_walk(node)))
        _walk_cache[id(node)] = r
    return r[1]


def _own_walk(node):
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    todo.reverse()
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if isinstance(n, ast.Lambda):
                pass
            else:
                continue
        ch = list(ast.iter_child_nodes(n))
        ch.reverse()
        todo.extend(ch)


def own_nested(node):
    for n in own_walk(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def bind_args(f, call, bound_self=False):
    """Map parameters of Func f to argument expressions of an ast.Call.

    Returns (mapping name->expr, extra positional exprs, extra keywords {name: expr}, star) where
    star lists Starred / ** expressions.  `bound_self` skips the first positional parameter.
    """
    pos = list(f.pos)
    if bound_self and pos:
        pos = pos[1:]
    mapping, extra, exkw, star = {}, [], {}, []
    for a in call.args:
        if isinstance(a, ast.Starred):
            star.append(a.value)
            continue
        if pos and not star:
            mapping[pos.pop(0)] = a
        else:
            extra.append(a)
    for k in call.keywords:
        if k.arg is None:
            star.append(k.value)
        elif k.arg in f.pos or k.arg in f.kwonly:
            mapping[k.arg] = k.value
        else:
            exkw[k.arg] = k.value
    return mapping, extra, exkw, star


_DOC_RE = None


def doc_type(f, name):
    """the docstring's description of a parameter's type, lower case ('' when absent)."""
    d = f.doc
    if not d and f.cls is not None:
        try:
            d = ast.get_docstring(f.cls.node) or ''
        except TypeError:
            d = ''
    m = re.search(r'^[ \t*]*' + re.escape(name) + r'\s*(?::|\()\s*([^\n]*)', d, re.M)
    return m.group(1).lower() if m else ''
