"""Path-correlated exploration of a function body with finite facts about tested expressions.

A state is (facts, defined): facts maps the text of a tested expression to a domain, either
('in', constants) or ('not', constants); defined is the set of local names bound on the path.
Loops are taken to run at least once (bodies are walked twice, so that what one pass binds the
next one sees).  Nothing is executed: expressions are only compared as text and constants.
"""
import ast, builtins
from .loader import own_walk

FRESH = ('fresh',)
NUM = ('num',)             # some whole number
LIMIT = 1500
END_CALLS = {'sys.exit', 'os._exit', 'exit', 'quit'}
SAME_TEXT = {'lower', 'upper', 'strip', 'casefold', 'title', 'capitalize'}
CHECKING = {'getattr', 'float', 'int', 'complex'}                    # raise for an unknown word
CHECKING_LIB = ('scipy.signal.windows.get_window', 'scipy.signal.get_window', 'scipy.stats.binned_statistic', 'scipy.stats.binned_statistic_dd',
                'scipy.interpolate.interp1d', 'astroML.density_estimation.histogram', 'scipy.signal.fftconvolve', 'numpy.dtype', 'numpy.pad', 'numpy.histogram', 'numpy.log10', 'numpy.log', 'numpy.sqrt',
                'numpy.exp', 'numpy.abs', 'numpy.isfinite')


class TooMany(Exception):
    pass


class State:
    __slots__ = ('facts', 'defd')

    def __init__(self, facts, defd):
        self.facts, self.defd = facts, defd

    def key(self):
        return (frozenset(self.facts.items()), self.defd)


def const_of(e):
    if isinstance(e, ast.Constant):
        return True, e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        try:
            return True, -e.operand.value
        except TypeError:
            return False, None
    return False, None


def hk(v):
    return (type(v).__name__, v)


def consts_of(e):
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        out = []
        for x in e.elts:
            ok, v = const_of(x)
            if not ok:
                return None
            out.append(v)
        return out
    return None


def key_of(e):
    """text of a tested expression made of names, fields and calls without side effects."""
    for n in ast.walk(e):
        if not isinstance(n, (ast.Name, ast.Attribute, ast.Call, ast.Constant, ast.Subscript, ast.Load, ast.Compare, ast.cmpop, ast.BinOp, ast.operator,
                              ast.UnaryOp, ast.unaryop, ast.Tuple, ast.List, ast.keyword, ast.Slice, ast.BoolOp, ast.boolop)):
            return None
    return ast.unparse(e)


def names_in(text_expr):
    return {n.id for n in ast.walk(ast.parse(text_expr, mode='eval')) if isinstance(n, ast.Name)}


class Walker:
    """fresh: names / field texts ('p', 'self.p') that hold an unknown word (for closed options)."""

    def __init__(self, P, f, fresh=(), always_raises=None, on_use=None, words=False):
        self.words = words
        self.seen = set()
        self.P, self.f = P, f
        self.always_raises = always_raises
        self.on_use = on_use
        self.locals = {n.id for n in own_walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not self.in_comp(n)}
        self.locals -= {x for s in own_walk(f.node) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        self.locals |= set(f.params) | set(f.nested)
        self.locals |= {h.name for h in own_walk(f.node) if isinstance(h, ast.ExceptHandler) and h.name}
        self.locals |= set(P.local_imports(f))
        self.fresh0 = frozenset(fresh)
        self.brk, self.cont = [], []
        self.returns, self.falls = [], []
        self.key_names = {}
        self.count = {}
        self.tested = set()
        for n in own_walk(f.node):
            t = None
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                t = n.test
            if t is not None:
                self.tested |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                for k in self.atom_keys(t):
                    self.count[k] = self.count.get(k, 0) + 1
        self.steps = 0

    def in_comp(self, n):
        if not hasattr(self, '_comp'):
            self._comp = set()
            for c in own_walk(self.f.node):
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in c.generators:
                        for x in ast.walk(g.target):
                            self._comp.add(id(x))
        return id(n) in self._comp

    def atom_keys(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.atom_keys(t.operand)
        if isinstance(t, ast.BoolOp):
            return [k for v in t.values for k in self.atom_keys(v)]
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, l, r = t.ops[0], t.left, t.comparators[0]
            eq = isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot))
            if isinstance(op, (ast.In, ast.NotIn)):
                if consts_of(r) is not None:
                    k = key_of(l)
                else:
                    k = key_of(ast.Compare(l, [ast.In()], [r]))
                return [k] if k else []
            if eq:
                for a, b in ((l, r), (r, l)):
                    if const_of(b)[0]:
                        k = key_of(a)
                        return [k] if k else []
                k = key_of(ast.Compare(l, [ast.Eq()], [r]))
                return [k] if k else []
            k = key_of(t)
            return [k] if k else []
        k = key_of(t)
        return [k] if k else []

    # ---------------------------------------------------------------- driver
    def run(self, param_facts=None):
        self.indexed = True
        try:
            return self.run1(param_facts)
        except TooMany:
            self.indexed = False
            self.steps = 0
            self.brk, self.cont = [], []
            self.returns, self.falls = [], []
            return self.run1(param_facts)

    def run1(self, param_facts=None):
        f = self.f
        facts = dict(param_facts or {})
        for x in self.fresh0:
            facts[x] = FRESH
        st = [State(facts, frozenset(f.params))]
        body = f.node.body if isinstance(f.node.body, list) else [ast.Return(f.node.body)]
        out = self.block(body, st)
        self.falls = out
        return self

    def block(self, stmts, states):
        for s in stmts:
            if not states:
                return []
            states = self.dedup(self.stmt(s, states))
        return states

    def dedup(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > 200:
            # forget facts, keep what is bound
            k2, res = set(), []
            for s in out:
                fr = {k: v for k, v in s.facts.items() if v == FRESH}
                s2 = State(fr, s.defd)
                if s2.key() not in k2:
                    k2.add(s2.key())
                    res.append(s2)
            raise TooMany()
        self.steps += len(out)
        if self.steps > 60000:
            raise TooMany()
        return out

    def stmt(self, s, states):
        if isinstance(s, ast.Expr):
            return self.ev(s.value, states, stmt=True)
        if isinstance(s, ast.Assign):
            states = self.ev(s.value, states)
            for t in s.targets:
                states = self.assign(t, s.value, states)
            return states
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return states
            return self.assign(s.target, s.value, self.ev(s.value, states))
        if isinstance(s, ast.AugAssign):
            states = self.ev(s.value, states)
            if isinstance(s.target, ast.Name):
                states = self.use(s.target, states)
            else:
                states = self.ev_sub(s.target, states)
            return self.assign(s.target, None, states)
        if isinstance(s, ast.Return):
            if s.value is not None:
                states = self.ev(s.value, states)
            self.returns.extend((s, x) for x in states)
            return []
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, states)
            return []
        if isinstance(s, ast.Assert):
            t, _ = self.test(s.test, states)
            return t
        if isinstance(s, ast.If):
            t, e = self.test(s.test, states)
            return self.block(s.body, t) + self.block(s.orelse, e)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            states = self.ev(s.iter, states)
            idx = None
            if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and (s.iter.func.id == 'tqdm' or not s.iter.keywords):
                if s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and isinstance(s.target, (ast.Tuple, ast.List)) and s.target.elts:
                    idx = s.target.elts[0]
                elif s.iter.func.id in ('range', 'tqdm') and len(s.iter.args) == 1:
                    a = s.iter
                    if a.func.id == 'tqdm':
                        a = a.args[0]
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'range' and len(a.args) == 1:
                        idx = s.target
                    elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'enumerate' and isinstance(s.target, (ast.Tuple, ast.List)) and s.target.elts:
                        idx = s.target.elts[0]
                elif s.iter.func.id == 'range' and len(s.iter.args) in (2, 3) and const_of(s.iter.args[0]) == (True, 0):
                    idx = s.target
            idx = idx.id if isinstance(idx, ast.Name) and self.indexed and idx.id in self.tested else None
            n = [0]

            def head(st):
                n[0] += 1
                st = self.assign(s.target, None, st)
                if idx:
                    if n[0] <= 2:
                        d = ('in', frozenset([hk(n[0] - 1)]))
                    else:
                        d = ('not', frozenset([hk(0), hk(1)]))
                    st = [self.with_fact(x, idx, d) for x in st]
                return st, []
            return self.loop(s, states, head, 3 if idx else 2)
        if isinstance(s, ast.While):
            return self.loop(s, states, lambda st: self.test(s.test, st))
        if isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1].extend(states)
            return []
        if isinstance(s, ast.Continue):
            if self.cont:
                self.cont[-1].extend(states)
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                states = self.ev(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.assign(i.optional_vars, None, states)
            return self.block(s.body, states)
        if isinstance(s, ast.Try):
            ret0 = len(self.returns)
            a = self.block(s.body, states)
            if s.orelse:
                a = self.block(s.orelse, a)
            out = list(a)
            killed = self.assigned(s.body)
            for h in s.handlers:
                hs = [self.forget(x, killed) for x in states]
                if h.name:
                    hs = [State(x.facts, x.defd | {h.name}) for x in hs]
                out += self.block(h.body, self.dedup(hs))
            if s.finalbody:
                if out:
                    out = self.block(s.finalbody, self.dedup(out))
                else:
                    self.block(s.finalbody, self.dedup([self.forget(x, killed) for x in states]))
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return [State(x.facts, x.defd | {s.name}) for x in states]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            new = {(a.asname or a.name.split('.')[0]) for a in s.names}
            return [State(x.facts, x.defd | new) for x in states]
        if isinstance(s, ast.Delete):
            gone = {t.id for t in s.targets if isinstance(t, ast.Name)}
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    states = self.ev_sub(t, states)
            return [State(x.facts, x.defd - gone) for x in states]
        if isinstance(s, ast.Match):
            states = self.ev(s.subject, states)
            out = []
            fresh = [x for x in states if self.is_fresh(s.subject, x)]
            if fresh:
                states = [x for x in states if not self.is_fresh(s.subject, x)]
                for c in s.cases:
                    lits = [n.value.value for n in ast.walk(c.pattern) if isinstance(n, ast.MatchValue) and isinstance(n.value, ast.Constant)]
                    self.saw(lits)
                    if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                        new = {c.pattern.name} if c.pattern.name else set()
                        out += self.block(c.body, [State(x.facts, x.defd | new) for x in fresh])
                        if c.guard is None:
                            fresh = []
                            break
                out += fresh
                if not states:
                    return out
            for c in s.cases:
                new = {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
                out += self.block(c.body, [State(x.facts, x.defd | new) for x in states])
            return out + states
        return states

    def loop(self, s, states, head, times=2):
        exits = []
        cur = states
        final = []
        for it in range(1, times + 1):
            self.brk.append([])
            self.cont.append([])
            body, out0 = head(cur)
            if it > 1 or not body:
                final += out0
            end = self.block(s.body, self.dedup(body))
            end = self.dedup(end + self.cont.pop())
            exits += self.brk.pop()
            cur = end
            if isinstance(s, (ast.For, ast.AsyncFor)):
                final += end
            if not cur:
                break
        if isinstance(s, ast.While) and cur:
            _, out0 = head(cur)
            final += out0
        final = self.dedup(final)
        if s.orelse:
            final = self.block(s.orelse, final)
        return self.dedup(final + exits)

    def assigned(self, stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(ast.unparse(n))
        return out

    def forget(self, st, names):
        if not names:
            return st
        facts = {k: v for k, v in st.facts.items() if not (self.knames(k) & names) and k not in names}
        return State(facts, st.defd)

    def knames(self, k):
        r = self.key_names.get(k)
        if r is None:
            e = ast.parse(k, mode='eval')
            r = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)} | {ast.unparse(n) for n in ast.walk(e) if isinstance(n, ast.Attribute)}
            self.key_names[k] = r
        return r

    def inl(self, e):
        """a call of a package helper that only returns an expression, with its arguments put in"""
        if not isinstance(e, ast.Call) or self.always_raises is None and False:
            return e
        if not hasattr(self, '_inl'):
            self._inl = {}
        if id(e) in self._inl:
            return self._inl[id(e)][1]
        r = self._inl1(e)
        self._inl[id(e)] = (e, r)
        return r

    def _inl1(self, e, depth=0):
        shadow = {x for x in self.locals if x not in self.f.nested and x not in self.P.local_imports(self.f)}
        b = self.P.resolve_expr(self.f.module, e.func, self.f, shadow)
        if b is None or b[0] != 'func' or b[1].cls is not None or b[1].parent is not None or depth > 3:
            return e
        g = b[1]
        if not isinstance(g.node, ast.FunctionDef) or g.vararg or g.kwarg or g.node.decorator_list:
            return e
        body = g.node.body[1:] if ast.get_docstring(g.node) is not None else g.node.body
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return e
        mp = dict(zip(g.pos, e.args))
        if len(e.args) > len(g.pos) or any(isinstance(a, ast.Starred) for a in e.args):
            return e
        for k in e.keywords:
            if k.arg is None or k.arg in mp:
                return e
            mp[k.arg] = k.value
        for p in g.params:
            if p not in mp:
                if p not in g.defaults or not const_of(g.defaults[p])[0]:
                    return e
                mp[p] = g.defaults[p]
        v = body[0].value
        for n in ast.walk(v):
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr, ast.Yield, ast.Await)):
                return e
            if isinstance(n, ast.Name) and n.id not in mp and (n.id in self.locals or g.module is not self.f.module and not hasattr(builtins, n.id)):
                return e

        class V(ast.NodeTransformer):
            def visit_Name(s, n):
                return mp.get(n.id, n)
        import copy
        r = V().visit(copy.deepcopy(v))
        if isinstance(r, ast.Call) and r is not e:
            r = self._inl1(r, depth + 1)
        return ast.copy_location(r, e)

    def is_test(self, e):
        if isinstance(e, ast.BoolOp):
            return all(self.is_test(v) for v in e.values)
        if isinstance(e, ast.Compare):
            return len(e.ops) == 1
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'callable', 'hasattr')

    # ---------------------------------------------------------------- assignment
    def assign(self, t, value, states):
        if value is not None:
            value = self.inl(value)
        if isinstance(t, ast.Name) and t.id in self.tested and value is not None and self.is_test(value):
            # a flag: remember the outcome together with what it says
            a, b = self.test(value, states)
            out = []
            for part, v in ((a, True), (b, False)):
                for x in part:
                    y = self.forget(x, {t.id})
                    out.append(State(dict(y.facts, **{t.id: ('in', frozenset([hk(v)]))}), y.defd | {t.id}))
            return self.dedup(out)
        if isinstance(t, ast.Name):
            out = []
            ok0, c0 = const_of(value) if value is not None else (False, None)
            for x in states:
                ok, c = ok0, c0
                if isinstance(value, ast.Call) and isinstance(value.func, ast.Attribute) and value.func.attr == 'get' and value.args and self.is_fresh(value.args[0], x):
                    # looking up an unknown word gives the fallback
                    if len(value.args) == 1 and not value.keywords:
                        ok, c = True, None
                    elif len(value.args) == 2:
                        ok, c = const_of(value.args[1])
                fr = value is not None and self.is_fresh(value, x)
                dom = None
                if value is not None and isinstance(value, ast.Name):
                    dom = x.facts.get(value.id)
                y = self.forget(x, {t.id})
                facts = y.facts
                if ok:
                    facts = dict(facts); facts[t.id] = ('in', frozenset([hk(c)]))
                elif fr:
                    facts = dict(facts); facts[t.id] = FRESH
                elif dom is not None:
                    facts = dict(facts); facts[t.id] = dom
                elif value is not None and self.is_num(value, x):
                    facts = dict(facts); facts[t.id] = NUM
                elif value is not None and isinstance(value, (ast.List, ast.Tuple, ast.Dict, ast.BinOp, ast.ListComp)) or (isinstance(value, ast.Call)):
                    # a computed value is not None
                    if t.id in self.count and not isinstance(value, ast.Call):
                        facts = dict(facts); facts[t.id] = ('not', frozenset([hk(None)]))
                out.append(State(facts, y.defd | {t.id}))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            # right-hand sides are evaluated before any target is bound
            simple = not any(isinstance(v, ast.Name) for v in vals)
            for e, v in zip(t.elts, vals):
                states = self.assign(e.value if isinstance(e, ast.Starred) else e, v if simple else None, states)
            return states
        if isinstance(t, ast.Starred):
            return self.assign(t.value, None, states)
        if isinstance(t, ast.Attribute):
            k = ast.unparse(t)
            out = []
            for x in self.ev(t.value, states):
                fr = value is not None and self.is_fresh(value, x)
                y = self.forget(x, {k})
                facts = y.facts
                ok, c = const_of(value) if value is not None else (False, None)
                if fr:
                    facts = dict(facts); facts[k] = FRESH
                elif ok and k in self.count:
                    facts = dict(facts); facts[k] = ('in', frozenset([hk(c)]))
                out.append(State(facts, y.defd))
            return out
        if isinstance(t, ast.Subscript):
            return self.ev(t.slice, self.ev(t.value, states))
        return states

    def is_fresh(self, e, st):
        if isinstance(e, ast.Name):
            return st.facts.get(e.id) == FRESH
        if isinstance(e, ast.Attribute):
            return st.facts.get(ast.unparse(e)) == FRESH
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in SAME_TEXT and not e.args:
            return self.is_fresh(e.func.value, st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'str' and len(e.args) == 1:
            return self.is_fresh(e.args[0], st)
        return False

    def dom(self, e, x):
        """('in', constants) when e is one of known constants, else None."""
        ok, c = const_of(e)
        if ok:
            try:
                return ('in', frozenset([hk(c)]))
            except TypeError:
                return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            d = x.facts.get(ast.unparse(e))
            return d if d is not None and d[0] == 'in' else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in SAME_TEXT and not e.args and not e.keywords:
            d = self.dom(e.func.value, x)
            if d is not None and all(isinstance(v[1], str) for v in d[1]):
                return ('in', frozenset(hk(getattr(v[1], e.func.attr)()) for v in d[1]))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'str' and len(e.args) == 1:
            d = self.dom(e.args[0], x)
            if d is not None and all(isinstance(v[1], str) for v in d[1]):
                return d
        return None

    # ---------------------------------------------------------------- tests
    def test(self, t, states):
        """(states where t is true, states where t is false)"""
        if isinstance(t, ast.Call):
            r = self.inl(t)
            if r is not t:
                return self.test(r, self.ev(t, states))
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.test(t.operand, states)
            return b, a
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And):
                cur, false = states, []
                for v in t.values:
                    cur, b = self.test(v, cur)
                    false += b
                return cur, self.dedup(false)
            cur, true = states, []
            for v in t.values:
                a, cur = self.test(v, cur)
                true += a
            return self.dedup(true), cur
        if isinstance(t, ast.NamedExpr):
            states = self.ev(t, states)
            return states, states
        if isinstance(t, ast.Constant):
            return (states, []) if t.value else ([], states)
        states = self.ev(t, states)
        T, F = [], []
        for x in states:
            a, b = self.atom(t, x)
            if a is not None:
                T.append(a)
            if b is not None:
                F.append(b)
        return self.dedup(T), self.dedup(F)

    def atom(self, t, x):
        """refine x by atom t: (state if true or None, state if false or None)"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, l, r = t.ops[0], t.left, t.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                if isinstance(r, ast.Constant) and isinstance(r.value, str) and self.is_fresh(l, x):
                    return x, x     # part of a text, not one of its words
                cs = consts_of(r)
                if self.is_fresh(l, x):
                    self.saw(self.static_words(r))
                res = None
                d = self.dom(l, x)
                if cs is None and d is not None:
                    cs = self.static_words(r)
                if d is not None and cs is not None:
                    tgt = {self.nk(hk(c)) for c in cs if not isinstance(c, (list, dict, set))}
                    got = {self.nk(v) in tgt for v in d[1]}
                    if len(got) == 1:
                        res = (x, None) if True in got else (None, x)
                        return res if isinstance(op, ast.In) else (res[1], res[0])
                cs = consts_of(r)
                if cs is not None:
                    if self.is_fresh(l, x):
                        res = (None, x)
                    else:
                        k = key_of(l)
                        if k:
                            res = self.refine(x, k, frozenset(map(hk, cs)))
                elif self.is_fresh(l, x):
                    res = (None, x)
                elif self.is_fresh(r, x) and isinstance(l, ast.Constant):
                    res = (x, x)    # or contain one
                if res is None:
                    res = self.opaque(ast.Compare(l, [ast.In()], [r]), x)
                return res if isinstance(op, ast.In) else (res[1], res[0])
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                pos = isinstance(op, (ast.Eq, ast.Is))
                for a, b in ((l, r), (r, l)):
                    ok, c = const_of(b)
                    if ok:
                        d = self.dom(a, x)
                        if d is not None:
                            got = {self.nk(v) == self.nk(hk(c)) for v in d[1]}
                            if len(got) == 1:
                                res = (x, None) if True in got else (None, x)
                                return res if pos else (res[1], res[0])
                        if self.is_fresh(a, x):
                            self.saw([c])
                            res = (None, x)
                        elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'type':
                            res = self.opaque(ast.Compare(l, [ast.Eq()], [r]), x)
                        else:
                            k = key_of(a)
                            res = self.refine(x, k, frozenset([hk(c)])) if k else (x, x)
                        return res if pos else (res[1], res[0])
                # type(p) == str
                for a, b in ((l, r), (r, l)):
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'type' and len(a.args) == 1 and self.is_fresh(a.args[0], x):
                        is_str = isinstance(b, ast.Name) and b.id == 'str'
                        res = (x, None) if is_str else (None, x)
                        return res if pos else (res[1], res[0])
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'type' and len(a.args) == 1 and isinstance(b, ast.Name) and self.is_word(a.args[0], x):
                        res = (x, None) if b.id == 'str' else (None, x)
                        return res if pos else (res[1], res[0])
                # a bookkeeping variable that still is None differs from any value it is compared with
                none = ('in', frozenset([hk(None)]))
                kl, kr = key_of(l), key_of(r)
                if (kl and x.facts.get(kl) == none) != (kr and x.facts.get(kr) == none):
                    return (None, x) if pos else (x, None)
                res = self.opaque(ast.Compare(l, [ast.Eq()], [r]), x)
                return res if pos else (res[1], res[0])
        if isinstance(t, ast.Call) and ast.unparse(t.func) in ('any', 'all', 'np.any', 'np.all', 'numpy.any', 'numpy.all') and len(t.args) == 1 \
                and isinstance(t.args[0], (ast.ListComp, ast.GeneratorExp)) and isinstance(t.args[0].elt, ast.UnaryOp) \
                and isinstance(t.args[0].elt.op, ast.Not) and self.is_zero(t.args[0].elt.operand, x):
            return x, None
        if isinstance(t, ast.BinOp) and self.is_zero(t, x):
            return None, x
        if isinstance(t, ast.Call):
            fn = t.func
            if isinstance(fn, ast.Name) and fn.id == 'isinstance' and len(t.args) == 2 and self.is_fresh(t.args[0], x):
                names = {n.id for n in ast.walk(t.args[1]) if isinstance(n, ast.Name)}
                return (x, None) if 'str' in names else (None, x)
            if isinstance(fn, ast.Name) and fn.id == 'isinstance' and len(t.args) == 2 and self.is_word(t.args[0], x):
                names = {n.id for n in ast.walk(t.args[1]) if isinstance(n, ast.Name)}
                return (x, None) if 'str' in names else (None, x)
            if isinstance(fn, ast.Name) and fn.id == 'isinstance' and len(t.args) == 2 and self.is_num(t.args[0], x) and not isinstance(t.args[0], ast.Constant):
                names = {n.id for n in ast.walk(t.args[1]) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(t.args[1]) if isinstance(n, ast.Attribute)}
                return (x, None) if names & {'int', 'integer', 'Number', 'Integral', 'Real'} else (None, x)
            if isinstance(fn, ast.Name) and fn.id in ('callable', 'hasattr') and t.args and self.is_word(t.args[0], x):
                return None, x
            if isinstance(fn, ast.Name) and fn.id == 'callable' and t.args and self.is_fresh(t.args[0], x):
                return None, x
            if isinstance(fn, ast.Attribute) and fn.attr in ('startswith', 'endswith') and self.is_fresh(fn.value, x):
                return x, x     # an unknown word may begin or end like a documented one
            if isinstance(fn, ast.Name) and fn.id == 'hasattr' and t.args and self.is_fresh(t.args[0], x):
                return None, x
        if self.is_fresh(t, x):
            return x, None
        if isinstance(t, (ast.Name, ast.Attribute)):
            k = ast.unparse(t)
            falsy = frozenset([hk(None), hk(False), hk(0), hk('')])
            d = x.facts.get(k)
            if d == NUM:
                return x, x
            if d and d[0] == 'in':
                vals = {bool(v[1]) for v in d[1]}
                if vals == {True}:
                    return x, None
                if vals == {False}:
                    return None, x
            if k in self.count and self.count[k] > 1 or d:
                a, b = self.refine(x, k, falsy)      # a: falsy, b: not among the falsy constants
                if a is not None:
                    a = self.with_fact(a, '?' + k, 0) if False else a
                return b, a
            return x, x
        return self.opaque(t, x)

    def is_word(self, e, x):
        d = self.dom(e, x)
        return d is not None and all(isinstance(v[1], str) for v in d[1])

    def is_num(self, e, x):
        if isinstance(e, ast.IfExp):
            t, f = self.atom(e.test, x) if not isinstance(e.test, (ast.BoolOp, ast.UnaryOp)) else (x, x)
            return (t is None or self.is_num(e.body, x)) and (f is None or self.is_num(e.orelse, x))
        ok, c = const_of(e)
        if ok:
            return isinstance(c, int) and not isinstance(c, bool)
        if isinstance(e, (ast.Name, ast.Attribute)):
            return x.facts.get(ast.unparse(e)) == NUM
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
            return self.is_num(e.left, x) and self.is_num(e.right, x)
        return False

    def static_words(self, e):
        """the words of a literal list or dict kept in a name, or its keys()."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys',) and not e.args:
            e = e.func.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'set') and len(e.args) == 1:
            return self.static_words(e.args[0])
        if isinstance(e, ast.Dict):
            out = []
            for k in e.keys:
                ok, c = const_of(k) if k is not None else (False, None)
                if not ok:
                    return None
                out.append(c)
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return consts_of(e)
        if isinstance(e, ast.Name) and e.id not in self.f.params:
            tree = self.f.node if e.id in self.locals else self.f.module.tree
            vals = [n.value for n in ast.walk(tree) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(vals) == 1:
                return self.static_words(vals[0])
        return None

    def saw(self, cs):
        self.seen |= {c for c in (cs or []) if isinstance(c, str)}

    def is_zero(self, e, x):
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mult):
                return self.is_zero(e.left, x) or self.is_zero(e.right, x)
            if isinstance(e.op, (ast.Mod, ast.FloorDiv, ast.Div)):
                return self.is_zero(e.left, x)
            if isinstance(e.op, ast.Add):
                return self.is_zero(e.left, x) and self.is_zero(e.right, x)
            return False
        ok, c = const_of(e)
        if ok:
            return type(c) in (int, float) and c == 0
        if isinstance(e, ast.Name):
            return x.facts.get(e.id) == ('in', frozenset([hk(0)]))
        return False

    def with_fact(self, x, k, v):
        d = dict(x.facts)
        d[k] = v
        return State(d, x.defd)

    def refine(self, x, k, cs):
        """split on whether expression k is one of the constants cs"""
        d = x.facts.get(k)
        if d == FRESH:
            return None, x
        if d == NUM:
            if all(c[1] is None or isinstance(c[1], str) for c in cs):
                return None, x
            return x, x
        if d is None:
            keep = self.count.get(k, 0) > 1
            if not keep:
                return x, x
            return self.with_fact(x, k, ('in', cs)), self.with_fact(x, k, ('not', cs))
        if d[0] == 'in':
            # 0 == False, 1 == True
            norm = {self.nk(c): c for c in d[1]}
            tgt = {self.nk(c) for c in cs}
            a = frozenset(c for n, c in norm.items() if n in tgt)
            b = frozenset(c for n, c in norm.items() if n not in tgt)
            return (self.with_fact(x, k, ('in', a)) if a else None), (self.with_fact(x, k, ('in', b)) if b else None)
        tgt = frozenset(c for c in cs if self.nk(c) not in {self.nk(e) for e in d[1]})
        a = self.with_fact(x, k, ('in', tgt)) if tgt else None
        return a, self.with_fact(x, k, ('not', d[1] | cs))

    @staticmethod
    def nk(c):
        v = c[1]
        if isinstance(v, (bool, int, float)):
            return ('num', float(v))
        return c

    def opaque(self, t, x):
        k = key_of(t)
        if k is None or self.count.get(key_of(t), 0) < 2:
            return x, x
        k = '(%s)' % k
        d = x.facts.get(k)
        if d == ('in', frozenset([hk(True)])):
            return x, None
        if d == ('in', frozenset([hk(False)])):
            return None, x
        return self.with_fact(x, k, ('in', frozenset([hk(True)]))), self.with_fact(x, k, ('in', frozenset([hk(False)])))

    # ---------------------------------------------------------------- expressions
    def use(self, n, states):
        if n.id in self.locals:
            bad = [x for x in states if n.id not in x.defd]
            if bad and self.on_use:
                self.on_use(n, bad[0])
                states = [State(x.facts, x.defd | {n.id}) for x in states]
        return states

    def ev_sub(self, e, states):
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.ev(c, states)
        return states

    def ev(self, e, states, stmt=False, bound=frozenset()):
        """walk an expression: report unbound uses, drop states in which it raises."""
        if e is None or not states:
            return states
        if isinstance(e, ast.Name):
            if e.id in bound or not isinstance(e.ctx, ast.Load):
                return states
            return self.use(e, states)
        if isinstance(e, ast.Constant):
            return states
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                states = self.ev(d, states, bound=bound)
            return states
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b2 = set(bound)
            for g in e.generators:
                states = self.ev(g.iter, states, bound=frozenset(b2))
                b2 |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    states = self.ev(c, states, bound=frozenset(b2))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                states = self.ev(x, states, bound=frozenset(b2))
            return states
        if isinstance(e, ast.IfExp):
            a, b = self.test(e.test, states) if not bound else (states, states)
            return self.dedup(self.ev(e.body, a, bound=bound) + self.ev(e.orelse, b, bound=bound))
        if isinstance(e, ast.BoolOp) and not bound:
            out, cur = [], states
            for i, v in enumerate(e.values):
                if i == len(e.values) - 1:
                    out += self.ev(v, cur)
                    break
                t, f = self.test(v, cur)
                if isinstance(e.op, ast.And):
                    out += f
                    cur = t
                else:
                    out += t
                    cur = f
            return self.dedup(out)
        if isinstance(e, ast.NamedExpr):
            states = self.ev(e.value, states, bound=bound)
            return self.assign(e.target, e.value, states)
        if isinstance(e, ast.Subscript):
            states = self.ev(e.value, states, bound=bound)
            states = self.ev(e.slice, states, bound=bound)
            if isinstance(e.ctx, ast.Load):
                # looking an unknown word up in a table raises
                states = [x for x in states if not self.is_fresh(e.slice, x)]
            return states
        if isinstance(e, ast.Call):
            return self.call(e, states, bound)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.ev(c, states, bound=bound)
            elif isinstance(c, ast.keyword):
                states = self.ev(c.value, states, bound=bound)
            elif isinstance(c, ast.FormattedValue):
                states = self.ev(c.value, states, bound=bound)
        return states

    def call(self, e, states, bound):
        states = self.ev(e.func, states, bound=bound)
        for a in e.args:
            states = self.ev(a.value if isinstance(a, ast.Starred) else a, states, bound=bound)
        for k in e.keywords:
            states = self.ev(k.value, states, bound=bound)
        if not states:
            return states
        fn = e.func
        args, kws = e.args, e.keywords
        # a word cannot be called
        states = [x for x in states if not self.is_fresh(fn, x)]
        # delayed(f)(args)
        if isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and fn.func.id == 'delayed' and len(fn.args) == 1:
            fn = fn.args[0]
        shadow = {x for x in self.locals if x not in self.f.nested and x not in self.P.local_imports(self.f)}
        b = self.P.resolve_expr(self.f.module, fn, self.f, shadow)
        if b is None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.f.self_name and self.f.cls is not None:
            m = self.P.find_method(self.f.cls, fn.attr)
            b = ('method', m) if m else None
        if b is None:
            return states
        if b[0] in ('ext', 'ext?', 'builtin'):
            if b[1] in END_CALLS:
                return []
            if b[1] in CHECKING or b[1] in CHECKING_LIB:
                vals = list(args[1:2] if b[1] == 'getattr' else args) + [k.value for k in kws]
                return [x for x in states if not any(self.is_fresh(v, x) for v in vals)]
            return states
        g, bound_self = None, False
        if b[0] == 'func':
            g = b[1]
        elif b[0] == 'method':
            g, bound_self = b[1], True
        elif b[0] == 'class':
            g, bound_self = self.P.find_method(b[1], '__init__'), True
        if g is None or self.always_raises is None:
            return states
        out = []
        for x in states:
            fr, words = set(), set()
            pos = list(g.pos[1:] if (bound_self and not g.is_static) else g.pos)
            for a in args:
                if isinstance(a, ast.Starred):
                    break
                if pos:
                    p = pos.pop(0)
                    if self.is_fresh(a, x):
                        fr.add(p)
                    elif self.dom(a, x) is not None and (self.words or not isinstance(a, ast.Constant)):
                        words.add((p, self.dom(a, x)))
                    elif self.is_num(a, x) and not isinstance(a, ast.Constant):
                        words.add((p, NUM))
            for k in kws:
                if k.arg and (k.arg in g.pos or k.arg in g.kwonly):
                    if self.is_fresh(k.value, x):
                        fr.add(k.arg)
                    elif self.dom(k.value, x) is not None and (self.words or not isinstance(k.value, ast.Constant)):
                        words.add((k.arg, self.dom(k.value, x)))
                    elif self.is_num(k.value, x) and not isinstance(k.value, ast.Constant):
                        words.add((k.arg, NUM))
            if b[0] == 'method':
                for k, v in x.facts.items():
                    if v == FRESH and k.startswith(self.f.self_name + '.'):
                        fr.add((g.self_name or 'self') + k[len(self.f.self_name):])
            if g.parent is self.f or (g.parent is not None and g.parent is self.f.parent):
                for k, v in x.facts.items():
                    if v == FRESH and k not in g.params:
                        fr.add(k)
            if self.words and b[0] == 'method':
                for k, v in x.facts.items():
                    if v != FRESH and v[0] == 'in' and k.startswith(self.f.self_name + '.') and all(isinstance(c[1], str) for c in v[1]):
                        words.add(((g.self_name or 'self') + k[len(self.f.self_name):], v))
            rej = self.always_raises(g, frozenset(fr), frozenset(words))
            if fr:
                self.seen |= self.always_raises.seen.get((g, frozenset(fr), frozenset(words)), set())
            if rej:
                continue
            out.append(x)
        return out


class Rejects:
    """always_raises(g, fresh): no path of g returns normally when the named inputs hold an unknown word."""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.seen = {}
        self.busy = set()

    def __call__(self, g, fresh, words=frozenset()):
        k = (g, fresh, words)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return False
        self.busy.add(k)
        try:
            w = Walker(self.P, g, fresh, always_raises=self, words=any(d != NUM for _, d in words))
            try:
                w.run(dict(words))
                r = not w.returns and not w.falls
            except (TooMany, RecursionError):
                r = False
        finally:
            self.busy.discard(k)
        self.seen[k] = w.seen
        self.memo[k] = r
        return r
