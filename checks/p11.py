"""P11: no path ends in a reference to something that does not exist."""
import ast, re
from analysis.loader import Project, own_walk, bind_args
from analysis.paths import Walker, Rejects, TooMany, const_of, hk
from analysis.report import Result
from analysis import libs

MINIMUM = 3500
TECHNIQUE = ('name, attribute, call-shape and definite-assignment resolution over the syntax trees: every name, module member, library function, '
             'field, call and tuple unpacking of every function is resolved against the package and the installed libraries\' sources; local names '
             'are checked on every path of a path-correlated walk of the control flow')
ASSUMPTIONS = ['loops run at least once', 'optional libraries that are not installed provide what is asked of them',
               'members of objects whose class is not visible in the source exist']
SPECIAL = {'__file__', '__name__', '__doc__', '__class__', '__path__', '__package__', '__spec__'}
# scripts that cannot run inside the package (they need an MPI launcher) and are no part of its interface
SKIP_MODULES = {'apply_mpi_lya_c'}


def local_names(f):
    if hasattr(f, '_locals11'):
        return f._locals11
    out = set(f.params) | set(f.nested)
    for n in own_walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split('.')[0]) for a in n.names}
        elif isinstance(n, (ast.ClassDef, ast.FunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.Lambda):
            a = n.args
            out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    out -= {x for s in own_walk(f.node) if isinstance(s, ast.Global) for x in s.names}
    f._locals11 = out
    return out


def shadowed(f):
    """names that hide module-level bindings inside f (imports and nested functions excluded: they are resolved)."""
    out = set()
    g = f
    while g is not None:
        out |= {x for x in local_names(g) if x not in g.nested and x not in _imports(g)}
        g = g.parent
    return out


def _imports(f):
    return getattr(f, '_limp', {})


class Checker:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.stored = set()
        for m in P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.stored.add(n.args[1].value)
        self.rej = Rejects(P)

    # -------------------------------------------------------------- names and members
    def names(self, f, m, nodes, where, bound):
        P, R = self.P, self.R
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in bound or n.id in SPECIAL:
                    continue
                b = P.lookup(m, n.id, f)
                if b is None:
                    R.bad('undefined-name', where, n.id, 'name %r is not defined anywhere it could come from' % n.id, n.lineno)
                elif b[0] == 'missing':
                    R.bad('missing-member', where, '%s.%s' % (b[1], b[2]), 'module %s has no %r' % (b[1], b[2]), n.lineno)
                else:
                    R.ok('%s name %s' % (where, n.id))
            elif isinstance(n, ast.Attribute):
                root = n
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not isinstance(root, ast.Name) or root.id in bound:
                    continue
                b = P.resolve_expr(m, n, f)
                if b is None:
                    base = P.resolve_expr(m, n.value, f)
                    if base and base[0] == 'class' and isinstance(n.ctx, ast.Load):
                        self.class_member(base[1], n, where)
                    continue
                if b[0] == 'missing':
                    if isinstance(n.ctx, ast.Load):
                        R.bad('missing-member', where, '%s.%s' % (b[1], b[2]), 'module %s has no %r' % (b[1], b[2]), n.lineno)
                elif b[0] == 'ext':
                    self.library(b[1], n, where)
                else:
                    R.ok('%s member %s' % (where, ast.unparse(n)))

    def library(self, dotted, n, where):
        k = libs.resolve(dotted)
        if k[0] == 'missing' and self.fallback(n):
            return
        if k[0] == 'missing':
            self.R.bad('missing-library-member', where, '%s.%s' % (k[1], k[2]), 'the installed %s has no %r' % (k[1], k[2]), n.lineno)
        elif k[0] == 'def' and libs.only_raises(k[1]):
            self.R.bad('removed-library-function', where, dotted, '%s only raises in the installed library' % dotted, n.lineno)
        else:
            self.R.ok('%s library %s' % (where, dotted))

    def fallback(self, n):
        """inside an except handler or a try with one: the other name is tried as well."""
        if not hasattr(self, '_guard'):
            self._guard = set()
            for m in self.P.modules.values():
                for t in ast.walk(m.tree):
                    if isinstance(t, ast.Try) and any(not any(isinstance(x, ast.Raise) for x in h.body) for h in t.handlers):
                        for part in (t.body, [s for h in t.handlers for s in h.body]):
                            for s in part:
                                if isinstance(s, (ast.Return, ast.Assign, ast.Expr, ast.Import, ast.ImportFrom)):
                                    self._guard |= {id(x) for x in ast.walk(s)}
        return id(n) in self._guard

    def members(self, c, seen=()):
        """(names a class provides, closed) closed False when a base is not visible."""
        out, closed = set(c.class_attrs) | set(c.methods), True
        for mname, meth in c.methods.items():
            if mname in ('__getattr__', '__getattribute__'):
                closed = False
            s = meth.self_name
            for n in own_walk(meth.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    closed = False
                if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    closed = False
        if len(c.bases) != len([b for b in c.node.bases if not (isinstance(b, ast.Name) and b.id == 'object')]):
            closed = False
        for b in c.bases:
            if b not in seen:
                o, cl = self.members(b, seen + (c,))
                out |= o
                closed = closed and cl
        return out, closed

    def class_member(self, c, n, where):
        out, closed = self.members(c)
        if closed and n.attr not in out and n.attr not in self.stored and not n.attr.startswith('__'):
            self.R.bad('missing-field', where, '%s.%s' % (c.name, n.attr), 'class %s never sets %r' % (c.name, n.attr), n.lineno)
        elif closed:
            self.R.ok('%s field %s.%s' % (where, c.name, n.attr))

    def fields(self, f):
        if f.cls is None or not f.self_name:
            return
        own = None
        for g in [f] + list(f.nested.values()):
            for n in own_walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == f.self_name:
                    if own is None:
                        out, closed = self.members(f.cls)
                        own = set(out)
                        for sub in self.P.subclasses(f.cls):
                            o, cl = self.members(sub)
                            own |= o
                            closed = closed and cl
                    if not closed or n.attr.startswith('__'):
                        continue
                    if n.attr in own or n.attr in self.stored:
                        self.R.ok('%s field %s' % (f.where, n.attr))
                    else:
                        self.R.bad('missing-field', f.where, 'self.' + n.attr, 'no method of %s sets %r' % (f.cls.name, n.attr), n.lineno)

    # -------------------------------------------------------------- calls
    def object_classes(self, f):
        """local name -> class, for names bound once, to a call of a repo class."""
        out, many = {}, set()
        sh = shadowed(f)
        for n in own_walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                many.add(n.id) if n.id in out or n.id in many else out.setdefault(n.id, None)
        single = {k for k in out if k not in many}
        res = {}
        for n in own_walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in single and n.targets[0].id not in f.params and isinstance(n.value, ast.Call):
                b = self.P.resolve_expr(f.module, n.value.func, f, sh)
                if b and b[0] == 'class':
                    res[n.targets[0].id] = b[1]
        return res

    def callee(self, f, m, fn, sh, objs):
        """(Func, bound_self, label) or None"""
        P = self.P
        b = P.resolve_expr(m, fn, f, sh)
        if b:
            if b[0] == 'func':
                g = b[1]
                via_class = isinstance(fn, ast.Attribute) and (P.resolve_expr(m, fn.value, f, sh) or ('',))[0] == 'class'
                return g, via_class and g.is_classmethod
            if b[0] == 'class':
                init = P.find_method(b[1], '__init__')
                if init:
                    return init, True
                out, closed = self.members(b[1])
                if closed and not b[1].node.decorator_list and not b[1].node.bases:
                    return 'noinit', b[1]
            return None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            c = None
            if f is not None and f.cls is not None and fn.value.id == f.self_name:
                c = f.cls
            elif fn.value.id in objs:
                c = objs[fn.value.id]
            if c is not None:
                meth = P.find_method(c, fn.attr)
                if meth:
                    if any(meth is not P.find_method(s, fn.attr) for s in P.subclasses(c)):
                        return None
                    return meth, not meth.is_static
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and f is not None and f.cls is not None:
            for base in f.cls.bases:
                meth = P.find_method(base, fn.attr)
                if meth:
                    return meth, True
        return None

    def calls(self, f, m, nodes, where):
        objs = self.object_classes(f) if f else {}
        sh = shadowed(f) if f else set()
        for n in nodes:
            if not isinstance(n, ast.Call):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in objs:
                    self.class_member(objs[n.value.id], n, where)
                continue
            fn, extra_pos = n.func, 0
            call = n
            if isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and fn.func.id == 'delayed' and len(fn.args) == 1:
                fn = fn.args[0]
            partial = False
            pb = self.P.resolve_expr(m, fn, f, sh) if isinstance(fn, (ast.Name, ast.Attribute)) else None
            if pb and pb[0] == 'ext' and pb[1] == 'functools.partial' and n.args:
                fn = n.args[0]
                call = ast.Call(fn, n.args[1:], n.keywords)
                partial = True
            cg = self.callee(f, m, fn, sh, objs)
            if cg is None:
                if pb and pb[0] == 'ext':
                    self.libcall(pb[1], n, where)
                continue
            g, bound = cg
            label = ast.unparse(fn)
            if g == 'noinit':
                if n.args or n.keywords:
                    self.R.bad('call-shape', where, label, 'class %s takes no arguments' % bound.name, n.lineno)
                continue
            if g.node.decorator_list and not (g.is_static or g.is_classmethod):
                if any(not self.plain_decorator(d) for d in g.node.decorator_list):
                    continue
            mp, extra, exkw, star = bind_args(g, call, bound)
            msg = None
            if extra and not g.vararg and not star:
                msg = 'passes %d positional arguments too many to %s' % (len(extra), g.qual)
            elif exkw and not g.kwarg:
                msg = 'passes %s, which %s does not take' % (', '.join(sorted(exkw)), g.qual)
            elif not star and not partial:
                need = [p for p in (g.pos[1:] if bound else g.pos) + g.kwonly if p not in g.defaults and p not in mp]
                if need:
                    msg = 'does not pass %s, which %s requires' % (', '.join(need), g.qual)
            if msg is None and not star:
                pos = (g.pos[1:] if bound else g.pos)[:len(call.args)]
                dup = [k.arg for k in call.keywords if k.arg in pos]
                if dup:
                    msg = 'passes %s twice to %s' % (', '.join(dup), g.qual)
            if msg:
                self.R.bad('call-shape', where, label, 'call of %s %s' % (label, msg), n.lineno)
            else:
                self.R.ok('%s call %s' % (where, label))

    @staticmethod
    def plain_decorator(d):
        t = ast.unparse(d)
        return any(x in t for x in ('jit', 'njit', 'lru_cache', 'cache', 'contextmanager', 'deprecated'))

    def libcall(self, dotted, n, where):
        """unknown keyword or too many positionals for a plain python library function."""
        sig = libs.keywords(dotted)
        if sig is None:
            return
        pos, kwo, va, kw = sig
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        bad = None
        if not kw:
            unk = [k.arg for k in n.keywords if k.arg not in pos and k.arg not in kwo]
            if unk:
                bad = 'does not take %s' % ', '.join(unk)
        if bad is None and not va and len(n.args) > len(pos):
            bad = 'takes %d positional arguments, %d given' % (len(pos), len(n.args))
        if bad:
            self.R.bad('library-call-shape', where, dotted, 'installed %s %s' % (dotted, bad), n.lineno)
        else:
            self.R.ok('%s library call %s' % (where, dotted))

    # -------------------------------------------------------------- unpacking
    def unpack(self, f, where):
        sh = shadowed(f)
        objs = self.object_classes(f)
        for n in own_walk(f.node):
            if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List))):
                continue
            t = n.targets[0]
            if any(isinstance(e, ast.Starred) for e in t.elts):
                continue
            cg = self.callee(f, f.module, n.value.func, sh, objs)
            if cg is None or cg[0] == 'noinit' or cg[0].name == '__init__':
                continue
            g, bound = cg
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_walk(g.node)):
                continue
            mp, extra, exkw, star = bind_args(g, n.value, bound)
            facts = {}
            if not star:
                for p in g.pos + g.kwonly:
                    e = mp.get(p, g.defaults.get(p))
                    if e is not None:
                        ok, c = const_of(e)
                        if ok:
                            try:
                                facts[p] = ('in', frozenset([hk(c)]))
                            except TypeError:
                                pass
            w = Walker(self.P, g)
            try:
                w.run(facts)
            except (TooMany, RecursionError):
                continue
            lens, unknown = set(), False
            for s, _ in w.returns:
                v = s.value
                if isinstance(v, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in v.elts):
                    lens.add(len(v.elts))
                elif v is None or isinstance(v, ast.Constant):
                    lens.add(-1)
                else:
                    unknown = True
            if w.falls:
                lens.add(-1)
            label = '%s = %s' % (ast.unparse(t), ast.unparse(n.value.func))
            if lens and not unknown and len(t.elts) not in lens:
                self.R.bad('unpack', where, label, '%s returns %s values here, %d are unpacked' % (g.qual, sorted(x for x in lens), len(t.elts)), n.lineno)
            else:
                self.R.ok('%s unpack %s' % (where, label))

    # -------------------------------------------------------------- text formatting
    def formats(self, nodes, where):
        for n in nodes:
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                spec = re.findall(r'%(?:\((\w+)\))?[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?[hlL]?([a-zA-Z%])', n.left.value)
                if '*' in n.left.value or any(a for a, _ in spec):
                    continue
                k = sum(1 for _, c in spec if c != '%')
                got = len(n.right.elts) if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts) else None
                if got is None:
                    if isinstance(n.right, (ast.Constant, ast.JoinedStr)) and k != 1:
                        got = 1
                    else:
                        continue
                if got != k:
                    self.R.bad('format', where, ast.unparse(n)[:80], 'the text takes %d values, %d are given' % (k, got), n.lineno)
                else:
                    self.R.ok('%s format' % where)


def run(tier):
    P = Project()
    R = Result()
    R.rules = {'undefined-name': 'every name is bound in a reachable scope', 'missing-member': 'package modules define what is taken from them',
               'missing-library-member': 'installed libraries define what is taken from them', 'removed-library-function': 'library function is usable',
               'missing-field': 'fields are set by some method', 'call-shape': 'arguments fit the callee', 'library-call-shape': 'arguments fit the library function',
               'unbound-local': 'locals are bound on every path that reads them', 'unpack': 'results are unpacked into as many pieces as are returned',
               'format': 'text formatting gets as many values as it takes'}
    C = Checker(P, R)
    nf = paths = many = 0
    for m in P.modules.values():
        if m.name in SKIP_MODULES:
            continue
        # imports of package names that do not exist
        for n, b in m.env.items():
            if b is not None and b[0] == 'missing':
                R.bad('missing-member', m.name + '.py', '%s.%s' % (b[1], b[2]), 'imports %r from %s, which does not define it' % (b[2], b[1]))
            elif b is not None and b[0] == 'ext':
                k = libs.resolve(b[1])
                if k[0] == 'missing' and n in imported_here(m) and not guarded_import(m.tree, n):
                    R.bad('missing-library-member', m.name + '.py', '%s.%s' % (k[1], k[2]), 'the installed %s has no %r' % (k[1], k[2]))
        for f in m.all_funcs:
            nf += 1
            for n, b in P.local_imports(f).items():
                if b is not None and b[0] == 'missing':
                    R.bad('missing-member', f.where, '%s.%s' % (b[1], b[2]), 'imports %r from %s, which does not define it' % (b[2], b[1]))
                elif b is not None and b[0] == 'ext':
                    k = libs.resolve(b[1])
                    if k[0] == 'missing' and not guarded_import(f.node, n):
                        R.bad('missing-library-member', f.where, '%s.%s' % (k[1], k[2]), 'the installed %s has no %r' % (k[1], k[2]))
            bound = set()
            g = f
            while g is not None:
                bound |= {x for x in local_names(g) if x not in P.local_imports(g) and x not in g.nested}
                g = g.parent
            body = [x for x in own_walk(f.node)]
            C.names(f, m, body, f.where, bound)
            C.fields(f)
            C.calls(f, m, body, f.where)
            C.unpack(f, f.where)
            C.formats(body, f.where)
            rep = {}
            w = Walker(P, f, always_raises=C.rej, on_use=lambda n, x: rep.setdefault(n.id, n.lineno))
            try:
                w.run()
                paths += w.steps
            except (TooMany, RecursionError):
                many += 1
                R.skip(f.where + ' locals', 'too many paths')
                continue
            for k, ln in rep.items():
                R.bad('unbound-local', f.where, k, 'local name %r is not bound on some path that reads it' % k, ln)
            R.ok(f.where + ' locals')
        # module-level code
        top = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.If))]
        nodes = []
        for s in top:
            nodes += list(own_walk([s]))
        comp = {x.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        lam = {a.arg for s in nodes if isinstance(s, ast.Lambda) for a in s.args.args}
        exc = {h.name for h in nodes if isinstance(h, ast.ExceptHandler) and h.name}
        C.names(None, m, nodes, m.name + '.py', comp | lam | exc)
        C.calls(None, m, nodes, m.name + '.py')
        C.formats(nodes, m.name + '.py')
    R.counts = {'functions': nf, 'path_states': paths, 'too_many_paths': many, 'library_modules_read': len(libs._names)}
    return R


def imported_here(m):
    return {(a.asname or a.name.split('.')[0]) for n in own_walk(m.tree) if isinstance(n, ast.Import) or (isinstance(n, ast.ImportFrom) and not n.level) for a in n.names}


def guarded_import(node, name):
    for t in own_walk(node):
        if isinstance(t, ast.Try):
            for s in t.body:
                if isinstance(s, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split('.')[0]) == name for a in s.names):
                    return True
    return False
