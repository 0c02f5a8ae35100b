#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, used while developing the checks.

  refactor.py NAME OUTDIR [seed]   writes OUTDIR/src/tools21cm with rewrite NAME applied to every module
  refactor.py --list

The checks must stay quiet on every one of them.  Not used by any check.
"""
import ast, copy, os, random, shutil, sys, warnings

warnings.simplefilter('ignore')

SRC = '/repo/src/tools21cm'
SKIP = {'__init__.py', 'test_case.py'}
DYNAMIC = {'eval', 'exec', 'locals', 'vars', 'evaluate', 'globals'}


def uses_dynamic(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in DYNAMIC:
            return True
        if isinstance(n, ast.Attribute) and n.attr in DYNAMIC:
            return True
    return False


def has(fn, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(fn) if n is not fn)


SCOPES = (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def local_names(fn):
    decl = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            decl |= set(n.names)
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                decl.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.FunctionDef) and n is not fn:
            decl.add(n.name)
    return out - decl


class Base:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.n = 0
        self.new = []          # module level definitions to add

    def fresh(self, p='_t'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def module(self, tree):
        self.new = []
        self.tree = tree
        for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
            self.function(fn)
        tree.body += self.new
        return tree

    def function(self, fn):
        pass

    def blocks(self, node, deep=True):
        """every statement list of a function, nested functions excluded"""
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list):
                yield node, f, b
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        yield from self.blocks(s)
        for h in getattr(node, 'handlers', []):
            yield from self.blocks(h)


class unparse(Base):
    pass


class rename(Base):
    def module(self, tree):
        for fn in [n for b in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)] for n in b.body if isinstance(n, ast.FunctionDef)]:
            if uses_dynamic(fn) or has(fn, ast.FunctionDef, ast.Lambda, ast.ClassDef):
                continue
            loc = local_names(fn) - set(params(fn))
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id in loc:
                    n.id = 'v_' + n.id
                if isinstance(n, ast.ExceptHandler) and n.name in loc:
                    n.name = 'v_' + n.name
        return tree


class impl(Base):
    """every module level function forwards to a private one with the same body"""
    def module(self, tree):
        out = []
        for s in tree.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not has(s, ast.Yield, ast.YieldFrom):
                inner = copy.deepcopy(s)
                inner.name = '_impl_' + s.name
                inner.args.defaults = []
                inner.args.kw_defaults = [None]*len(inner.args.kwonlyargs)
                a = s.args
                call = ast.Call(ast.Name(inner.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args],
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs])
                if a.vararg:
                    call.args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
                if a.kwarg:
                    call.keywords.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
                doc = [s.body[0]] if ast.get_docstring(s) is not None else []
                if doc:
                    inner.body = inner.body[1:] or [ast.Pass()]
                s.body = doc + [ast.Return(call)]
                out += [inner, s]
            else:
                out.append(s)
        tree.body = out
        return tree


class implkw(impl):
    def module(self, tree):
        tree = super().module(tree)
        for s in tree.body:
            if isinstance(s, ast.FunctionDef) and s.body and isinstance(s.body[-1], ast.Return) and isinstance(s.body[-1].value, ast.Call) and getattr(s.body[-1].value.func, 'id', '').startswith('_impl_'):
                c = s.body[-1].value
                if not s.args.vararg and not s.args.posonlyargs:
                    c.keywords = [ast.keyword(a.id, a) for a in c.args] + c.keywords
                    c.args = []
        return tree


class methodimpl(Base):
    """every method forwards to a private method"""
    def module(self, tree):
        for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
            out = []
            for s in c.body:
                if isinstance(s, ast.FunctionDef) and not s.decorator_list and not has(s, ast.Yield) and s.args.args and s.args.args[0].arg == 'self':
                    inner = copy.deepcopy(s)
                    inner.name = '_do_%s_%s' % (c.name, s.name)
                    inner.args.defaults = []
                    a = s.args
                    call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), inner.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]],
                                    [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs])
                    if a.vararg:
                        call.args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
                    if a.kwarg:
                        call.keywords.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
                    s.body = [ast.Expr(call)] if s.name == '__init__' else [ast.Return(call)]
                    out += [inner, s]
                else:
                    out.append(s)
            c.body = out
        return tree


def pure_names(e, loc):
    """names of locals an expression reads, or None when it cannot be moved into a helper"""
    names = []
    for n in ast.walk(e):
        if isinstance(n, SCOPES) or isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr, ast.Starred)):
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in DYNAMIC | {'super'}:
            return None
        if isinstance(n, ast.Attribute) and n.attr in DYNAMIC:
            return None
        if isinstance(n, ast.Name) and n.id in loc and n.id not in names:
            names.append(n.id)
    return names


class helper(Base):
    """right hand sides become calls to module level helpers"""
    rate = 0.5

    def module(self, tree):
        self.new = []
        for fn in [n for b in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)] for n in b.body if isinstance(n, ast.FunctionDef)]:
            if has(fn, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom) or uses_dynamic(fn) or fn.decorator_list:
                continue
            loc = local_names(fn) | set(params(fn))
            for owner, f, b in list(self.blocks(fn)):
                for s in b:
                    if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant, ast.Tuple)) and self.rng.random() < self.rate:
                        names = pure_names(s.value, loc)
                        if names is None:
                            continue
                        h = self.fresh('_helper_')
                        self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), [ast.Return(s.value)], [], lineno=0))
                        s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
        tree.body += self.new
        return tree


class helperall(helper):
    rate = 1.0


class subhelper(Base):
    """arithmetic subexpressions become helpers"""
    def module(self, tree):
        self.new = []
        me = self
        for fn in [n for b in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)] for n in b.body if isinstance(n, ast.FunctionDef)]:
            if has(fn, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom) or uses_dynamic(fn) or fn.decorator_list:
                continue
            loc = local_names(fn) | set(params(fn))

            class V(ast.NodeTransformer):
                def visit_Lambda(self, n): return n
                visit_ListComp = visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_Lambda

                def visit_BinOp(self, n):
                    self.generic_visit(n)
                    if me.rng.random() < 0.5:
                        names = pure_names(n, loc)
                        if names:
                            h = me.fresh('_part_')
                            me.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), [ast.Return(n)], [], lineno=0))
                            return ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
                    return n
            fn.body = [V().visit(s) for s in fn.body]
        tree.body += self.new
        return tree


class blockhelper(Base):
    """consecutive simple assignments move into a helper that returns their values"""
    def module(self, tree):
        self.new = []
        for fn in [n for b in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)] for n in b.body if isinstance(n, ast.FunctionDef)]:
            if has(fn, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Lambda) or uses_dynamic(fn) or fn.decorator_list:
                continue
            loc = local_names(fn) | set(params(fn))
            for owner, f, b in list(self.blocks(fn)):
                i = 0
                while i < len(b):
                    j = i
                    while j < len(b) and isinstance(b[j], ast.Assign) and len(b[j].targets) == 1 and isinstance(b[j].targets[0], ast.Name) and pure_names(b[j].value, loc) is not None:
                        j += 1
                    if j - i >= 2:
                        grp = b[i:j]
                        outs, ins, seen = [], [], set()
                        for s in grp:
                            for x in pure_names(s.value, loc):
                                if x not in seen and x not in ins:
                                    ins.append(x)
                            seen.add(s.targets[0].id)
                            if s.targets[0].id not in outs:
                                outs.append(s.targets[0].id)
                        h = self.fresh('_block_')
                        self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []),
                                        grp + [ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in outs], ast.Load()))], [], lineno=0))
                        b[i:j] = [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in outs], ast.Store())],
                                             ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], []), lineno=0)]
                        i += 1
                    else:
                        i = max(j, i + 1)
        tree.body += self.new
        return tree


class loophelper(Base):
    """the body of every for loop moves into a local function called once per iteration when it only stores into objects"""
    def function(self, fn):
        if uses_dynamic(fn) or fn.decorator_list:
            return
        for owner, f, b in reversed(list(self.blocks(fn))):
            for k, s in enumerate(list(b)):
                if not isinstance(s, ast.For) or s.orelse:
                    continue
                w = ast.Module(s.body, [])
                if any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for n in ast.walk(w)):
                    continue
                if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) for n in ast.walk(w)):
                    continue
                names = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
                if any(not isinstance(n, (ast.Name, ast.Tuple, ast.Store, ast.List)) for n in ast.walk(s.target)):
                    continue
                h = self.fresh('_body_')
                d = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), s.body, [], lineno=0)
                s.body = [ast.Expr(ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in names], []))]
                b.insert(b.index(s), d)


class negif(Base):
    def function(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            elif isinstance(n, ast.IfExp):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body


class temps(Base):
    """call arguments become temporaries, in order"""
    def function(self, fn):
        if uses_dynamic(fn):
            return
        for owner, f, b in reversed(list(self.blocks(fn))):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign, ast.Expr)) and isinstance(s.value, ast.Call) and (not isinstance(s, (ast.Assign, ast.AugAssign)) or True):
                    c = s.value
                    if isinstance(c.func, ast.Name) and c.func.id in ('print', 'super', 'isinstance', 'hasattr'):
                        out.append(s)
                        continue
                    def hoist(e):
                        if isinstance(e, (ast.Name, ast.Constant, ast.Starred, ast.Lambda, ast.Tuple)) or has(ast.Expr(e), ast.NamedExpr):
                            return e
                        t = self.fresh()
                        out.append(ast.Assign([ast.Name(t, ast.Store())], e, lineno=0))
                        return ast.Name(t, ast.Load())
                    c.args = [hoist(a) for a in c.args]
                    for k in c.keywords:
                        if k.arg:
                            k.value = hoist(k.value)
                elif isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
                    for side in ('left', 'right'):
                        e = getattr(s.value, side)
                        if not isinstance(e, (ast.Name, ast.Constant)):
                            t = self.fresh()
                            out.append(ast.Assign([ast.Name(t, ast.Store())], e, lineno=0))
                            setattr(s.value, side, ast.Name(t, ast.Load()))
                out.append(s)
            b[:] = out


class comm(Base):
    def function(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                n.left, n.right = n.right, n.left


class commplus(Base):
    """swap sums whose operands are visibly numeric"""
    def function(self, fn):
        def num(e):
            return isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) or isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div, ast.Pow)) and (num(e.left) or num(e.right))
        for n in ast.walk(fn):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and (num(n.left) or num(n.right)):
                n.left, n.right = n.right, n.left


class whiles(Base):
    def function(self, fn):
        if uses_dynamic(fn):
            return
        for owner, f, b in reversed(list(self.blocks(fn))):
            out = []
            for s in b:
                r = s.iter if isinstance(s, ast.For) else None
                if r is not None and isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'range' and len(r.args) <= 2 and not s.orelse and isinstance(s.target, ast.Name) and not any(isinstance(n, ast.Continue) for n in ast.walk(s)):
                    i, lim = self.fresh('_i'), self.fresh('_n')
                    lo = r.args[0] if len(r.args) == 2 else ast.Constant(0)
                    out.append(ast.Assign([ast.Name(i, ast.Store())], lo, lineno=0))
                    out.append(ast.Assign([ast.Name(lim, ast.Store())], r.args[-1], lineno=0))
                    out.append(ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(lim, ast.Load())]),
                               [ast.Assign([s.target], ast.Name(i, ast.Load()), lineno=0)] + s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], []))
                else:
                    out.append(s)
            b[:] = out


class enums(Base):
    """enumerate becomes a counter; range(len(x)) becomes enumerate"""
    def function(self, fn):
        if uses_dynamic(fn):
            return
        for owner, f, b in reversed(list(self.blocks(fn))):
            out = []
            for s in b:
                out.append(s)
                if not isinstance(s, ast.For):
                    continue
                r = s.iter
                if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'enumerate' and len(r.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and not any(isinstance(n, ast.Continue) for n in ast.walk(s)) and not s.orelse:
                    i = self.fresh('_i')
                    out.insert(len(out) - 1, ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0), lineno=0))
                    s.body = [ast.Assign([s.target.elts[0]], ast.Name(i, ast.Load()), lineno=0)] + s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))]
                    s.target, s.iter = s.target.elts[1], r.args[0]
                elif isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'range' and len(r.args) == 1 and isinstance(r.args[0], ast.Call) and getattr(r.args[0].func, 'id', '') == 'len' and isinstance(r.args[0].args[0], ast.Name):
                    s.target = ast.Tuple([s.target, ast.Name(self.fresh('_e'), ast.Store())], ast.Store())
                    s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [r.args[0].args[0]], [])
            b[:] = out


class comps(Base):
    """list comprehensions become loops"""
    def function(self, fn):
        if uses_dynamic(fn):
            return
        for owner, f, b in reversed(list(self.blocks(fn))):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)):
                    v = s.value
                    holder, key = s, 'value'
                    if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords:
                        holder, key, v = v.args, 0, v.args[0]
                    if isinstance(v, ast.ListComp) and len(v.generators) == 1:
                        g = v.generators[0]
                        bound = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                        if not bound & (local_names(fn) - bound_only(fn)) and not bound & set(params(fn)):
                            t = self.fresh('_l')
                            out.append(ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()), lineno=0))
                            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [v.elt], []))]
                            for c in reversed(g.ifs):
                                body = [ast.If(c, body, [])]
                            out.append(ast.For(g.target, g.iter, body, [], lineno=0))
                            if isinstance(holder, list):
                                holder[key] = ast.Name(t, ast.Load())
                            else:
                                setattr(holder, key, ast.Name(t, ast.Load()))
                out.append(s)
            b[:] = out


def bound_only(fn):
    """names stored only as comprehension variables"""
    comp = set()
    ids = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    comp.add(x.id)
                    ids.add(id(x))
    other = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in ids}
    return comp - other


class ternary(Base):
    def function(self, fn):
        for owner, f, b in reversed(list(self.blocks(fn))):
            for k, s in enumerate(b):
                if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and len(s.body[0].targets) == 1:
                    b[k] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=0)
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                    b[k] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body, lineno=0)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse, lineno=0)])
                elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                    b[k] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])


class returns(Base):
    """return expressions through a variable; else after return dropped"""
    def function(self, fn):
        for owner, f, b in reversed(list(self.blocks(fn))):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and not uses_dynamic(fn):
                    out.append(ast.Assign([ast.Name('_result', ast.Store())], s.value, lineno=0))
                    s.value = ast.Name('_result', ast.Load())
                if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                    out.append(ast.If(s.test, s.body, []))
                    out += s.orelse
                    continue
                out.append(s)
            b[:] = out


class elseret(Base):
    """statements after an if that returns move into its else"""
    def function(self, fn):
        def go(b):
            for k, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(b):
                    s.orelse = go(b[k + 1:])
                    return b[:k + 1]
            return b
        fn.body[:] = go(fn.body)


class nested(Base):
    """if a and b -> nested ifs"""
    def function(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                first, rest = n.test.values[0], n.test.values[1:]
                inner = ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])
                n.test, n.body = first, [inner]


class elifs(Base):
    """elif chains become nested else blocks guarded by flags"""
    def function(self, fn):
        if uses_dynamic(fn):
            return
        for owner, f, b in reversed(list(self.blocks(fn))):
            out = []
            for s in b:
                if isinstance(s, ast.If) and s.orelse and not (f == 'orelse'):
                    t = self.fresh('_c')
                    out.append(ast.Assign([ast.Name(t, ast.Store())], s.test, lineno=0))
                    s.test = ast.Name(t, ast.Load())
                out.append(s)
            b[:] = out


class numpyname(Base):
    def module(self, tree):
        al = [a for s in tree.body if isinstance(s, ast.Import) for a in s.names if a.name == 'numpy' and a.asname == 'np']
        if al:
            for a in al:
                a.asname = None
            for n in ast.walk(tree):
                if isinstance(n, ast.Name) and n.id == 'np':
                    n.id = 'numpy'
        return tree


class fromnumpy(Base):
    """from numpy import names used in functions"""
    def module(self, tree):
        if not any(isinstance(s, ast.Import) and any(a.name == 'numpy' for a in s.names) for s in tree.body):
            return tree
        used = {}
        stored = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}
        class V(ast.NodeTransformer):
            def visit_Attribute(s, n):
                s.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id in ('np', 'numpy') and isinstance(n.ctx, ast.Load) and n.attr in ('sqrt', 'exp', 'arange', 'zeros', 'ones', 'log10', 'histogram', 'linspace', 'meshgrid', 'where', 'interp', 'array', 'pi', 'abs', 'mean'):
                    used[n.attr] = '_np_' + n.attr
                    return ast.Name('_np_' + n.attr, n.ctx)
                return n
        V().visit(tree)
        if used:
            k = next((i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom)) and getattr(s, 'module', '') != '__future__'), 0)
            tree.body.insert(k, ast.ImportFrom('numpy', [ast.alias(a, b) for a, b in sorted(used.items())], 0))
        return tree


class flip(Base):
    def function(self, fn):
        M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in M:
                n.left, n.comparators[0] = n.comparators[0], n.left
                n.ops[0] = M[type(n.ops[0])]()


class arith(Base):
    """x**2 -> x*x, np.sqrt(x) -> x**0.5, x/c -> x*(1/c), a-b -> -(b-a) kept out"""
    def module(self, tree):
        class V(ast.NodeTransformer):
            def visit_BinOp(s, n):
                s.generic_visit(n)
                if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
                    return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
                if isinstance(n.op, ast.Div) and isinstance(n.right, ast.BinOp) and isinstance(n.right.op, ast.Mult):
                    return ast.BinOp(ast.BinOp(n.left, ast.Div(), n.right.left), ast.Div(), n.right.right)
                return n
            def visit_AugAssign(s, n):
                s.generic_visit(n)
                if isinstance(n.target, ast.Subscript):
                    t = copy.deepcopy(n.target)
                    t.ctx = ast.Load()
                    return ast.Assign([n.target], ast.BinOp(t, n.op, n.value), lineno=0)
                return n
        return V().visit(tree)


class methods(Base):
    """x.sum(...) -> np.sum(x, ...)"""
    def module(self, tree):
        if not any(isinstance(s, ast.Import) and any(a.name == 'numpy' and a.asname == 'np' for a in s.names) for s in tree.body):
            return tree
        mods = {(a.asname or a.name).split('.')[0] for s in ast.walk(tree) if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
        class V(ast.NodeTransformer):
            def visit_Call(s, n):
                s.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('sum', 'mean', 'max', 'min', 'std', 'squeeze', 'reshape') and not (isinstance(n.func.value, ast.Name) and n.func.value.id in mods | {'self'}) and not (isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id in mods):
                    if n.func.attr == 'reshape' and len(n.args) != 1:
                        return n
                    return ast.Call(ast.Attribute(ast.Name('np', ast.Load()), n.func.attr, ast.Load()), [n.func.value] + n.args, n.keywords)
                return n
        return V().visit(tree)


class kwcalls(Base):
    """calls between functions of one module pass their arguments by keyword"""
    def module(self, tree):
        sig = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef) and not s.args.vararg and not s.args.posonlyargs}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sig and not any(isinstance(a, ast.Starred) for a in n.args):
                ps = [a.arg for a in sig[n.func.id].args.args]
                if len(n.args) <= len(ps):
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                    n.args = []
        return tree


class poscalls(Base):
    """calls between functions of one module pass leading keyword arguments by position"""
    def module(self, tree):
        sig = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef) and not s.args.vararg and not s.args.posonlyargs}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sig and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
                ps = [a.arg for a in sig[n.func.id].args.args]
                kw = {k.arg: k.value for k in n.keywords}
                args = list(n.args)
                while len(args) < len(ps) and ps[len(args)] in kw:
                    args.append(kw.pop(ps[len(args)]))
                n.args = args
                n.keywords = [ast.keyword(k, v) for k, v in kw.items()]
        return tree


class noop(Base):
    def function(self, fn):
        for owner, f, b in reversed(list(self.blocks(fn))):
            if not b:
                continue
            k = 1 if b is fn.body and ast.get_docstring(fn) is not None else 0
            b.insert(k, ast.Assign([ast.Name('_unused', ast.Store())], ast.Constant(None), lineno=0))


class isnone(Base):
    def function(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                if isinstance(n.ops[0], ast.Eq): n.ops[0] = ast.Is()
                if isinstance(n.ops[0], ast.NotEq): n.ops[0] = ast.IsNot()


class inline(Base):
    """single use temporaries move into the next statement"""
    def function(self, fn):
        if uses_dynamic(fn) or has(fn, ast.FunctionDef, ast.Lambda, ast.Global):
            return
        for _ in range(3):
            for owner, f, b in reversed(list(self.blocks(fn))):
                k = 0
                while k + 1 < len(b):
                    s, t = b[k], b[k + 1]
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return)) and t.value is not None and isinstance(s.value, (ast.BinOp, ast.Call, ast.Attribute, ast.Subscript)) and s.targets[0].id not in params(fn) and not any(isinstance(n, ast.Attribute) and getattr(n.value, 'id', '') in ('const', 'conv', 'cm') for n in ast.walk(s.value)):
                        x = s.targets[0].id
                        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x]
                        inside = [n for n in ast.walk(t.value) if isinstance(n, ast.Name) and n.id == x]
                        scoped = [n for c in ast.walk(t.value) if isinstance(c, SCOPES + (ast.IfExp, ast.BoolOp)) for n in ast.walk(c) if n in inside]
                        if len(uses) == 2 and len(inside) == 1 and not scoped:
                            v = s.value
                            class V(ast.NodeTransformer):
                                def visit_Name(s2, n):
                                    return v if n is inside[0] else n
                            t.value = V().visit(t.value)
                            del b[k]
                            continue
                    k += 1


class reorder(Base):
    """adjacent independent assignments swap places"""
    def function(self, fn):
        def simple(s):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                return None
            for n in ast.walk(s.value):
                if isinstance(n, SCOPES):
                    return None
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np' and f.attr not in ('load', 'fromfile', 'loadtxt', 'save', 'random'):
                        continue
                    if isinstance(f, ast.Name) and f.id in ('len', 'int', 'float', 'range', 'max', 'min'):
                        continue
                    return None
            return s.targets[0].id, {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
        for owner, f, b in reversed(list(self.blocks(fn))):
            for k in range(len(b) - 1):
                x, y = simple(b[k]), simple(b[k + 1])
                if x and y and x[0] != y[0] and x[0] not in y[1] and y[0] not in x[1]:
                    b[k], b[k + 1] = b[k + 1], b[k]


class consts(Base):
    """numeric literals in functions become module constants"""
    def module(self, tree):
        tab = {}
        class V(ast.NodeTransformer):
            def visit_JoinedStr(s, n): return n
            def visit_FunctionDef(s, n):
                n.body = [s.visit(x) for x in n.body]
                return n
            def visit_Constant(s, n):
                if isinstance(n.value, float):
                    return ast.Name(tab.setdefault(n.value, '_K%d' % len(tab)), ast.Load())
                return n
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                V().visit(s)
            elif isinstance(s, ast.ClassDef):
                for m in s.body:
                    if isinstance(m, ast.FunctionDef):
                        V().visit(m)
        defs = [ast.Assign([ast.Name(n, ast.Store())], ast.Constant(v), lineno=0) for v, n in tab.items()]
        k = next((i for i, s in enumerate(tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(tree.body))
        tree.body[k:k] = defs
        return tree


class strsets(Base):
    """x == 'a' -> x in ('a',)"""
    def function(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, str):
                n.ops[0] = ast.In()
                n.comparators[0] = ast.Tuple([n.comparators[0]], ast.Load())
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], ast.List) and n.comparators[0].elts and isinstance(n.left, ast.Name):
                n.comparators[0] = ast.Tuple(n.comparators[0].elts, ast.Load())


class hoistdefault(Base):
    """defaults of None options resolved into new names is covered by temps; here: parameters copied to locals first"""
    def module(self, tree):
        for fn in [n for b in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)] for n in b.body if isinstance(n, ast.FunctionDef)]:
            if uses_dynamic(fn) or has(fn, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Yield):
                continue
            ps = [x.arg for x in fn.args.args if x.arg != 'self']
            k = 1 if ast.get_docstring(fn) is not None else 0
            for s in fn.body[k:]:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and n.id in ps:
                        n.id = 'p_' + n.id
            fn.body[k:k] = [ast.Assign([ast.Name('p_' + x, ast.Store())], ast.Name(x, ast.Load()), lineno=0) for x in ps]
        return tree


class tryraise(Base):
    """asserts become if/raise"""
    def function(self, fn):
        for owner, f, b in reversed(list(self.blocks(fn))):
            for k, s in enumerate(b):
                if isinstance(s, ast.Assert):
                    b[k] = ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(ast.Name('AssertionError', ast.Load()), [s.msg] if s.msg else [], []), None)], [])


ALL = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, Base) and v is not Base}


def apply(name, out, seed=0, only=None):
    shutil.copytree(SRC, out + '/src/tools21cm', ignore=shutil.ignore_patterns('__pycache__', 'input_data'))
    changed = 0
    for fn in sorted(os.listdir(SRC)):
        if not fn.endswith('.py') or fn in SKIP or (only and fn not in only):
            continue
        p = out + '/src/tools21cm/' + fn
        src = open(p, 'rb').read().decode()
        tree = ast.parse(src)
        before = ast.dump(tree)
        for n in name.split('+'):
            tree = ast.fix_missing_locations(ALL[n](seed).module(tree))
        new = ast.unparse(ast.fix_missing_locations(tree))
        compile(new, p, 'exec')
        changed += ast.dump(ast.parse(new)) != before
        open(p, 'w').write(new + '\n')
    return changed


if __name__ == '__main__':
    if sys.argv[1] == '--list':
        print(' '.join(ALL))
    else:
        print(sys.argv[1], apply(sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 0), 'modules changed')
