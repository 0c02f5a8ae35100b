"""Message-free form of the package: printing, warnings, waiting and progress bars removed.

Branches that differ only in messages become one statement, so that what remains under a verbosity test is what the test really decides.
"""
import ast, copy

MSG_NAMES = {'print', 'print_msg', 'loading_verbose', 'loading_msg', 'pprint'}
MSG_ATTRS = {('time', 'sleep'), ('stdout', 'write'), ('stdout', 'flush'), ('stderr', 'write'), ('stderr', 'flush'), ('warnings', 'warn'),
             ('warnings', 'simplefilter'), ('warnings', 'filterwarnings'), ('logging', 'info'), ('logging', 'debug'), ('logging', 'warning'), ('pprint', 'pprint')}
BARS = {'tqdm', 'trange', 'tqdm_notebook', 'progressbar'}


def callee(c):
    """(base, name) of a call"""
    f = c.func
    if isinstance(f, ast.Name):
        return None, f.id
    if isinstance(f, ast.Attribute):
        v = f.value
        b = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else '?'
        return b, f.attr
    return None, None


def harmless(args):
    for a in args:
        for n in ast.walk(a):
            if isinstance(n, ast.NamedExpr):
                return False
            if isinstance(n, ast.Call):
                b, m = callee(n)
                if m in ('next', 'pop', 'popleft', 'popitem', 'append', 'extend', 'update', 'setdefault', 'insert', 'remove', 'sort', 'fill', 'seed', 'shuffle', 'put', 'write'):
                    return False
                if b in ('random',) or m in ('rvs', 'normal', 'uniform', 'randint', 'random', 'randn', 'rand', 'choice', 'permutation', 'poisson'):
                    return False
    return True


def is_bar(e):
    return isinstance(e, ast.Call) and callee(e)[1] in BARS


class Put(ast.NodeTransformer):
    def __init__(self, sub):
        self.sub = sub

    def visit_Name(self, n):
        v = self.sub.get(n.id)
        return copy.deepcopy(v) if v is not None and isinstance(n.ctx, ast.Load) else n


class Calls(ast.NodeTransformer):
    """calls of one-expression functions written out; progress bars among what appears removed"""

    def __init__(self, helpers, depth):
        self.helpers, self.depth = helpers, depth

    def visit_Call(self, n):
        n = self.generic_visit(n)
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') else None
        g = self.helpers.get((name, isinstance(f, ast.Attribute)))
        if g is None or self.depth <= 0 or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return n
        ps, e = g
        args = ([f.value] if isinstance(f, ast.Attribute) else []) + n.args
        if len(args) + len(n.keywords) != len(ps) or any(k.arg not in ps for k in n.keywords):
            return n
        sub = dict(zip(ps, args))
        sub.update({k.arg: k.value for k in n.keywords})
        return Calls(self.helpers, self.depth - 1).visit(Put(sub).visit(copy.deepcopy(e)))


def one_expression(tree):
    """(name, is method) -> parameters and the expression returned"""
    out = {}
    def go(body, method):
        for s in body:
            if isinstance(s, ast.ClassDef):
                go(s.body, True)
            elif isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwarg and not s.args.defaults and not s.args.kwonlyargs:
                b = [x for x in s.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                if len(b) == 1 and isinstance(b[0], ast.Return) and b[0].value is not None and not any(isinstance(x, (ast.Lambda, ast.comprehension)) for x in ast.walk(b[0])):
                    k = (s.name, method)
                    if k in out:
                        out[k] = None
                    else:
                        out[k] = ([a.arg for a in s.args.posonlyargs + s.args.args], Quiet().visit(copy.deepcopy(b[0].value)))
    go(tree.body, False)
    return {k: v for k, v in out.items() if v is not None}


class Quiet(ast.NodeTransformer):
    fn = None
    helpers = {}

    def visit_FunctionDef(self, n):
        up, self.fn = self.fn, n if self.fn is None else self.fn
        try:
            return self.function(n)
        finally:
            self.fn = up

    def function(self, n):
        bars = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Assign) and is_bar(x.value) and not x.value.args and not any(k.arg == 'iterable' for k in x.value.keywords):
                bars |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        old = getattr(self, 'bars', set())
        self.bars = bars
        n = self.generic_visit(n)
        self.bars = old
        n.body = self.tidy(n.body) or [ast.copy_location(ast.Pass(), n)]
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def plain(self, body, at):
        """the branch with its own temporaries and one-expression helpers written out, when it is a sequence of plain assignments"""
        sub, out = {}, []
        local = {id(x) for st in at.body + at.orelse for x in ast.walk(st)}
        for st in body:
            if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
                return None
            v = self.inline(Put(sub).visit(copy.deepcopy(st.value)))
            name = st.targets[0].id
            outside = self.fn is None or any(isinstance(x, ast.Name) and x.id == name and id(x) not in local for x in ast.walk(self.fn))
            if outside:
                out.append(ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], v), st))
                sub.pop(name, None)
            else:
                sub[name] = v
        return out

    def inline(self, e, depth=3):
        return Calls(self.helpers, depth).visit(e)

    def tidy(self, body):
        out = []
        for st in body:
            if isinstance(st, ast.Pass):
                continue
            out.append(st)
        return out

    def generic_visit(self, n):
        n = super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            v = getattr(n, k, None)
            if isinstance(v, list) and not isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.Try)):
                v = self.tidy(v)
                if k == 'body' and not v:
                    v = [ast.copy_location(ast.Pass(), n)]
                setattr(n, k, v)
            elif isinstance(v, list) and isinstance(n, ast.Try) and k == 'body' and not v:
                n.body = [ast.copy_location(ast.Pass(), n)]
        return n

    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call):
            b, m = callee(c)
            msg = (b is None and m in MSG_NAMES) or (b, m) in MSG_ATTRS or (m in MSG_NAMES and b is not None and m != 'print') or \
                  m in ('set_description', 'set_postfix', 'set_postfix_str', 'refresh') or \
                  (m in ('update', 'close', 'write') and (b in getattr(self, 'bars', ()) or (b or '').lower().find('bar') >= 0 or b == 'tqdm'))
            if msg and harmless(list(c.args) + [k.value for k in c.keywords]):
                return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)

    def visit_Call(self, n):
        n = self.generic_visit(n)
        b, m = callee(n)
        if m in BARS and m != 'trange':
            if n.args:
                return n.args[0]
            for k in n.keywords:
                if k.arg == 'iterable':
                    return k.value
        if m == 'trange':
            return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name('range', ast.Load()), n), args=n.args, keywords=[]), n)
        return n

    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if is_bar(n.value):
            return ast.copy_location(ast.Pass(), n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name) and n.value.id == n.targets[0].id:
            return ast.copy_location(ast.Pass(), n)
        return n

    def visit_IfExp(self, n):
        n = self.generic_visit(n)
        if ast.dump(n.body) == ast.dump(n.orelse):
            return n.body
        return n

    def visit_If(self, n):
        n = self.generic_visit(n)
        a = [x for x in n.body if not isinstance(x, ast.Pass)]
        b = [x for x in n.orelse if not isinstance(x, ast.Pass)]
        if any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(n.test)) or not harmless([n.test]):
            return n
        if not a and not b:
            return ast.copy_location(ast.Pass(), n)
        if a and b and [ast.dump(x) for x in a] == [ast.dump(x) for x in b]:
            return a if len(a) > 1 else a[0]
        if a and b:
            x = self.plain(a, n)
            if x is not None and [ast.dump(i) for i in x] == [ast.dump(i) for i in self.plain(b, n) or ()]:
                return x if len(x) > 1 else x[0] if x else ast.copy_location(ast.Pass(), n)
        if not a:
            n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
            n.body, n.orelse = b, []
        return n


def quiet(tree, name=None):
    q = Quiet()
    q.helpers = one_expression(tree)
    return ast.fix_missing_locations(q.visit(tree))
