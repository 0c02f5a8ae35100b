"""Guard slices: what is left of a function when only the statements that decide whether it raises are kept.

A slice keeps every raise and assert, the branches and loops around them, early exits, and the assignments their
conditions depend on.  Two functions with equivalent slices raise for the same arguments and states.
Calls of functions that existed when the table was recorded stay calls; functions added since (helpers) are kept whole.
"""
import ast, copy

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'remove', 'sort', 'reverse', 'fill', 'discard'}


def own(node):
    """nodes below node, nested functions and classes excluded"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def key(e):
    """name a value is kept under: a local name or self.attribute"""
    while True:
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return 'self.' + e.attr
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
            e = e.value
            continue
        if isinstance(e, ast.Call):
            e = e.func
            continue
        return None


def reads(e):
    out = set()
    todo = [e]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            out.add('self.' + n.attr)
            continue
        if isinstance(n, ast.Name):
            out.add(n.id)
        todo += list(ast.iter_child_nodes(n))
    return out


def targets(s):
    if isinstance(s, ast.Assign):
        ts = list(s.targets)
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor)):
        ts = [s.target]
    elif isinstance(s, (ast.With, ast.AsyncWith)):
        ts = [i.optional_vars for i in s.items if i.optional_vars is not None]
    else:
        ts = []
    out = set()
    while ts:
        t = ts.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            ts += t.elts
        else:
            k = key(t)
            if k:
                out.add(k)
    return out


class Slicer:
    def __init__(self, fn, newcalls, consts=()):
        self.fn, self.newcalls = fn, newcalls
        self.need = set()

    def is_new(self, c):
        if not isinstance(c, ast.Call):
            return False
        f = c.func
        if isinstance(f, ast.Name):
            return f.id in self.newcalls
        return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and f.attr in self.newcalls

    def guard(self, s):
        if isinstance(s, (ast.Raise, ast.Assert)):
            return True
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return False
        if self.is_new(s):
            return True
        return any(isinstance(n, (ast.Raise, ast.Assert)) or self.is_new(n) for n in own(s))

    def run(self):
        fn = self.fn
        if not any(self.guard(s) for s in fn.body):
            body = [ast.Return(ast.Constant(0))]
        else:
            self.last = 0
            self.find_last(fn.body, None)
            while True:
                n = len(self.need)
                body = self.block(fn.body)
                if len(self.need) == n:
                    break
            body = body + [ast.Return(ast.Constant(0))]
        new = ast.FunctionDef(name=fn.name, args=fn.args, body=body, decorator_list=[], returns=None, type_comment=None)
        if hasattr(fn, 'type_params'):
            new.type_params = []
        return ast.copy_location(new, fn)

    def find_last(self, stmts, loop):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if self.guard(s):
                self.last = max(self.last, s.end_lineno if isinstance(s, (ast.For, ast.While)) else s.lineno)
                for k in ('body', 'orelse', 'finalbody'):
                    self.find_last(getattr(s, k, []) or [], loop)
                for h in getattr(s, 'handlers', []):
                    self.find_last(h.body, loop)

    def block(self, stmts):
        out = []
        for s in stmts:
            if s.lineno > self.last:
                break
            r = self.stmt(s)
            out += r
        return out

    def wanted(self, s):
        return bool(targets(s) & self.need)

    def stmt(self, s):
        if isinstance(s, ast.Raise):
            return [ast.copy_location(ast.Raise(exc=ast.Call(ast.Name('Exception', ast.Load()), [], []), cause=None), s)]
        if isinstance(s, ast.Assert):
            self.need |= reads(s.test)
            return [ast.copy_location(ast.Assert(s.test, None), s)]
        if isinstance(s, ast.Return):
            if s.value is not None and any(self.is_new(n) for n in ast.walk(s.value)):
                self.need |= reads(s.value)
                return [ast.copy_location(ast.Expr(s.value), s), ast.copy_location(ast.Return(ast.Constant(0)), s)]
            return [ast.copy_location(ast.Return(ast.Constant(0)), s)]
        if isinstance(s, (ast.Break, ast.Continue, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return [s]
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if s.name in self.need:
                return [s]
            return []
        if isinstance(s, ast.If):
            b, o = self.block(s.body), self.block(s.orelse)
            if not any(self.useful(x) for x in b + o):
                return []
            self.need |= reads(s.test)
            return [ast.copy_location(ast.If(s.test, b or [ast.Pass()], o), s)]
        if isinstance(s, (ast.For, ast.AsyncFor)):
            b, o = self.block(s.body), self.block(s.orelse)
            if not self.wanted(s) and not any(self.useful(x) and not isinstance(x, (ast.Break, ast.Continue)) for x in b + o):
                return []
            self.need |= reads(s.iter)
            return [ast.copy_location(ast.For(s.target, s.iter, b or [ast.Pass()], o, None), s)]
        if isinstance(s, ast.While):
            b, o = self.block(s.body), self.block(s.orelse)
            if not any(self.useful(x) and not isinstance(x, (ast.Break, ast.Continue)) for x in b + o):
                return []
            self.need |= reads(s.test)
            return [ast.copy_location(ast.While(s.test, b or [ast.Pass()], o), s)]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b = self.block(s.body)
            if not self.wanted(s):
                return b
            for i in s.items:
                self.need |= reads(i.context_expr)
            return [ast.copy_location(ast.With(s.items, b or [ast.Pass()], None), s)]
        if isinstance(s, ast.Try):
            b, o, f = self.block(s.body), self.block(s.orelse), self.block(s.finalbody)
            hs = []
            for h in s.handlers:
                hs.append(ast.copy_location(ast.ExceptHandler(h.type, h.name, self.block(h.body) or [ast.Pass()]), h))
            if not any(self.useful(x) for x in b + o + f + [y for h in hs for y in h.body]):
                return []
            if not s.handlers:
                return b + o + f
            return [ast.copy_location(ast.Try(b or [ast.Pass()], hs, o, f), s)]
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if s.value is None:
                return []
            if self.wanted(s) or self.is_new(s.value) and self.wanted(s):
                self.need |= reads(s.value)
                if isinstance(s, ast.AugAssign):
                    self.need |= reads(s.target)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    for n in ast.walk(t):
                        if isinstance(n, ast.Subscript):
                            self.need |= reads(n.slice)
                return [s]
            calls = [n for n in ast.walk(s.value) if self.is_new(n)]
            if calls:
                for c in calls:
                    self.need |= reads(c)
                return [ast.copy_location(ast.Expr(c), s) for c in calls]
            return []
        if isinstance(s, ast.Expr):
            c = s.value
            calls = [n for n in ast.walk(c) if self.is_new(n)]
            if calls:
                for x in calls:
                    self.need |= reads(x)
                return [ast.copy_location(ast.Expr(x), s) for x in calls]
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in MUTATORS and key(c.func.value) in self.need:
                self.need |= reads(c)
                return [s]
            return []
        return []

    def useful(self, s):
        return not isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal))


def strip(node):
    body = node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


def transform(table):
    """tree -> tree with every known function replaced by its guard slice; table: module -> names of the recorded functions"""
    def go(tree, name):
        known = set(table.get(name, ()))
        defined = {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
        imported = {a.asname or a.name for n in ast.walk(tree) if isinstance(n, ast.ImportFrom) and n.level for a in n.names}
        nested = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nested |= {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not n}
        new = (defined - known) - nested

        def visit(stmts):
            out = []
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append(Slicer(s, new).run() if s.name in known else s)
                elif isinstance(s, ast.ClassDef):
                    c = copy.copy(s)
                    c.body = visit(s.body) or [ast.Pass()]
                    out.append(c)
                elif isinstance(s, ast.If):
                    c = copy.copy(s)
                    c.body, c.orelse = visit(s.body) or [ast.Pass()], visit(s.orelse)
                    out.append(c)
                else:
                    out.append(s)
            return out
        t = copy.copy(tree)
        t.body = visit(tree.body)
        return ast.fix_missing_locations(t)
    return go
