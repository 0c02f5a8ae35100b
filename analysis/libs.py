"""Names that installed libraries define, read from their source and stub files (never imported).

exists(dotted) -> True / False / None (unknown).  removed(dotted) -> text when the library keeps the
name only to raise.  signature(dotted) -> set of keyword names or None when not certain.
"""
import ast, os, glob, sys, importlib.util

SITES = [p for p in glob.glob('/opt/venv/lib/python3*/site-packages')]
STDLIB = set(sys.stdlib_module_names)
SAFE_STD = {'os', 'os.path', 'sys', 'time', 'math', 'itertools', 'functools', 'collections', 'copy', 'pickle', 'json', 'glob', 're', 'random', 'struct',
            'string', 'operator', 'warnings', 'datetime', 'shutil', 'pathlib', 'io', 'gc', 'multiprocessing', 'concurrent.futures', 'importlib', 'importlib.metadata', 'importlib.util'}


class Mod:
    def __init__(self, path, name, pkg):
        self.path, self.name, self.pkg = path, name, pkg
        self.defs = None


_mods = {}
_trees = {}


def find(name):
    """file of module `name` or None."""
    if name in _mods:
        return _mods[name]
    rel = name.replace('.', '/')
    r = None
    for s in SITES:
        b = os.path.join(s, rel)
        for cand in (os.path.join(b, '__init__.pyi'), os.path.join(b, '__init__.py'), b + '.pyi', b + '.py'):
            # only numpy ships stubs that list everything; elsewhere the source is the truth
            if cand.endswith('.pyi') and not name.split('.')[0] == 'numpy':
                continue
            if os.path.exists(cand):
                r = Mod(cand, name, '__init__' in os.path.basename(cand))
                break
        if r is None and os.path.isdir(b):
            r = Mod(b, name, True)
        if r:
            break
    _mods[name] = r
    return r


def compiled(name):
    rel = name.replace('.', '/')
    return any(glob.glob(os.path.join(s, rel) + '.*.so') or glob.glob(os.path.join(s, rel) + '.so') for s in SITES)


def tree(path):
    if path not in _trees:
        try:
            with open(path, encoding='utf-8') as f:
                _trees[path] = ast.parse(f.read())
        except (SyntaxError, OSError, UnicodeDecodeError):
            _trees[path] = None
    return _trees[path]


def flat(stmts):
    for s in stmts:
        yield s
        if isinstance(s, (ast.If, ast.For, ast.While)):
            yield from flat(s.body)
            yield from flat(s.orelse)
        elif isinstance(s, ast.With):
            yield from flat(s.body)
        elif isinstance(s, ast.Try):
            yield from flat(s.body)
            for h in s.handlers:
                yield from flat(h.body)
            yield from flat(s.orelse)
            yield from flat(s.finalbody)


class Names:
    def __init__(self):
        self.d = {}          # name -> ('def', node, modname) | ('ref', modname, name) | ('mod', modname) | ('val',)
        self.open = False    # something is not visible statically


_names = {}


def names(mod, seen=()):
    """names a module defines."""
    if mod in _names:
        return _names[mod]
    n = Names()
    m = find(mod)
    if m is None or os.path.isdir(m.path):
        n.open = True
        _names[mod] = n
        return n
    if mod in seen:
        n.open = False
        return n
    t = tree(m.path)
    if t is None:
        n.open = True
        _names[mod] = n
        return n
    pkg = mod if m.pkg else mod.rsplit('.', 1)[0]
    stub = m.path.endswith('.pyi')
    listed = []
    for s in flat(t.body):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if s.name == '__getattr__' and not stub:
                n.open = n.open or not lazy_raises(s)
            n.d.setdefault(s.name, ('def', s, mod))
        elif isinstance(s, ast.Assign):
            for tt in s.targets:
                for x in ast.walk(tt):
                    if isinstance(x, ast.Name):
                        n.d.setdefault(x.id, ('val',))
                if isinstance(tt, (ast.Subscript,)) and 'globals()' in ast.unparse(tt):
                    n.open = True
            if any(isinstance(tt, ast.Name) and tt.id == '__all__' for tt in s.targets):
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                        listed.append(x.value)
            if 'attach' in ast.unparse(s.value) and 'lazy' in ast.unparse(s.value):
                n.open = True
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            n.d.setdefault(s.target.id, ('val',))
        elif isinstance(s, ast.Import):
            for a in s.names:
                n.d.setdefault(a.asname or a.name.split('.')[0], ('mod', a.name if a.asname else a.name.split('.')[0]))
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ''
            if s.level:
                p = pkg.split('.')
                p = p[:len(p) - (s.level - 1)]
                base = '.'.join(p + ([s.module] if s.module else []))
            for a in s.names:
                if a.name == '*':
                    if find(base) is None or os.path.isdir(find(base).path):
                        n.open = True
                        continue
                    sub = names(base, seen + (mod,))
                    if sub.open:
                        n.open = True
                    for k, v in sub.d.items():
                        if not k.startswith('_'):
                            n.d.setdefault(k, ('ref', base, k))
                else:
                    # in a stub only `import x as x` re-exports
                    if stub and a.asname is None and not (m.pkg and s.level) and not m.pkg:
                        continue
                    n.d.setdefault(a.asname or a.name, ('ref', base, a.name))
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and 'globals()' in ast.unparse(s.value):
            n.open = True
        elif isinstance(s, ast.For) and 'setattr' in ast.unparse(s):
            n.open = True
    for x in listed:
        n.d.setdefault(x, ('val',))
    if not seen:
        _names[mod] = n
    return n


def lazy_raises(f):
    """a module __getattr__ that supplies only names it lists is closed; be careful: open unless it just raises."""
    return all(isinstance(x, (ast.Raise, ast.Expr)) for x in f.body)


def step(base, attr):
    """(kind, payload) of module `base` member attr: kind in 'mod','def','val','missing','unknown'."""
    n = names(base)
    v = n.d.get(attr)
    sub = base + '.' + attr
    if v is None:
        m = find(sub)
        if m is not None or compiled(sub):
            return ('mod', sub)
        if base == 'numpy':
            return ('missing',) if not numpy_dunder(attr) else ('unknown',)
        return ('unknown',) if n.open else ('missing',)
    for _ in range(20):
        if v[0] == 'ref':
            b, a = v[1], v[2]
            if find(b) is None:
                if compiled(b):
                    return ('unknown',)
                return ('unknown',)
            nb = names(b)
            w = nb.d.get(a)
            if w is None:
                if find(b + '.' + a) is not None:
                    return ('mod', b + '.' + a)
                return ('unknown',)
            v = w
            continue
        break
    if v[0] == 'mod':
        return ('mod', v[1])
    if v[0] == 'def':
        return ('def', v[1], v[2])
    return ('val',)


def numpy_dunder(a):
    return a.startswith('__')


def resolve(dotted):
    parts = dotted.split('.')
    top = parts[0]
    if top in STDLIB:
        return std(parts)
    if find(top) is None:
        return ('absent', top)
    cur = top
    i = 1
    while i < len(parts):
        k = step(cur, parts[i])
        if k[0] == 'mod':
            cur = k[1]
            if cur.split('.')[0] in STDLIB:
                return std(cur.split('.') + parts[i + 1:])
            i += 1
            continue
        if k[0] == 'missing':
            return ('missing', '.'.join(parts[:i]), parts[i])
        if k[0] == 'def':
            return k if i == len(parts) - 1 else ('member', k, parts[i + 1:])
        return k
    return ('mod', cur)


def std(parts):
    import importlib
    for j in range(len(parts), 0, -1):
        name = '.'.join(parts[:j])
        if name in SAFE_STD:
            o = importlib.import_module(name)
            for k in range(j, len(parts)):
                if not hasattr(o, parts[k]):
                    try:
                        if importlib.util.find_spec('.'.join(parts[:k + 1])) is not None:
                            return ('val',)
                    except (ImportError, ValueError, AttributeError):
                        pass
                    return ('missing', '.'.join(parts[:k]), parts[k]) if hasattr(o, '__name__') else ('unknown',)
                o = getattr(o, parts[k])
            return ('val',)
    return ('unknown',)


def only_raises(node):
    """the library keeps this name only to raise."""
    def stub(body):
        body = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return len(body) == 1 and isinstance(body[0], ast.Raise)
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return stub(node.body)
    if isinstance(node, ast.ClassDef):
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and s.name in ('__init__', '__new__'):
                return stub(s.body)
    return False


def keywords(dotted):
    """(positional names, keyword names, has *args, has **kw) of a plain library function, else None."""
    k = resolve(dotted)
    if k[0] != 'def' or not isinstance(k[1], ast.FunctionDef):
        return None
    f = k[1]
    if any(True for d in f.decorator_list):
        return None
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], bool(a.vararg), bool(a.kwarg)
