"""Interprocedural alias and mutation analysis (flow-sensitive, summary based).

Abstract value: (own, elems, tup, kind)
  own   - set of roots the value itself may be (or be a view into)
  elems - set of roots reachable as elements of a fresh container
  tup   - for tuples: component values (lets `a, b = f(x)` keep precision)
Roots: ('p', name) parameter, ('s', attr) field of self, ('g', module, name) module object,
       ('d', func, name) default-argument object.
A mutation of a value whose `own` holds a root is a mutation of the object behind that root.
"""
import ast
from .loader import own_walk, bind_args, doc_type, Func, Class

EMPTY = frozenset()


class Val:
    __slots__ = ('own', 'elems', 'tup', 'weak', 'cls')

    def __init__(self, own=EMPTY, elems=EMPTY, tup=None, weak=False, cls=None):
        self.own, self.elems, self.tup, self.weak, self.cls = frozenset(own), frozenset(elems), tup, weak, cls

    def key(self):
        return (self.own, self.elems, tuple(t.key() for t in self.tup) if self.tup is not None else None, self.weak,
                self.cls.qual if self.cls else None)

    def all(self):
        r = self.own | self.elems
        if self.tup:
            for t in self.tup:
                r |= t.all()
        return r


FRESH = Val()


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    tup = None
    if a.tup is not None and b.tup is not None and len(a.tup) == len(b.tup):
        tup = tuple(join(x, y) for x, y in zip(a.tup, b.tup))
    elems = a.elems | b.elems
    if tup is None:
        for v in (a, b):
            if v.tup is not None:
                for t in v.tup:
                    elems |= t.all()
    return Val(a.own | b.own, elems, tup, a.weak and b.weak, a.cls or b.cls)


# external functions whose result may share memory with their first argument
ALIASING = {'numpy.' + n for n in '''asarray asanyarray ascontiguousarray asfortranarray asmatrix squeeze swapaxes
 moveaxis rollaxis transpose ravel reshape atleast_1d atleast_2d atleast_3d expand_dims flip fliplr flipud rot90 diagonal
 broadcast_to require real imag real_if_close split array_split hsplit vsplit dsplit broadcast_arrays as_strided
 lib.stride_tricks.as_strided lib.stride_tricks.sliding_window_view
 asfarray nditer permute_dims matrix_transpose'''.split()} | {
    'numpy.ma.asarray', 'numpy.ma.masked_where_'}
# aliasing only with copy=False / copy=None
ALIAS_IF_NOCOPY = {'numpy.array', 'numpy.nan_to_num', 'numpy.ma.array', 'numpy.ma.masked_where', 'numpy.ma.masked_array',
                   'numpy.ma.masked_invalid', 'numpy.ma.masked_equal'}
ALIAS_METHODS = {'reshape', 'ravel', 'squeeze', 'swapaxes', 'transpose', 'view', 'diagonal', 'newbyteorder', 'get', 'values',
                 'items', '__iter__', 'setdefault', 'pop', 'popitem', 'moveaxis'}
ALIAS_ATTRS_NO = {'shape', 'size', 'ndim', 'dtype', 'nbytes', 'itemsize', 'strides'}
MUT_METHODS = {'sort', 'fill', 'resize', 'put', 'partition', 'itemset', 'setflags', 'byteswap_', 'append', 'extend', 'insert',
               'remove', 'clear', 'update', 'reverse', 'setdefault', 'pop', 'popitem', 'add', 'discard', 'setfield',
               'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__',
               'appendleft', 'extendleft', 'popleft', 'rotate'}
# external function -> index of the argument written in place
MUT_FUNCS = {'numpy.put': 0, 'numpy.copyto': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0,
             'numpy.put_along_axis': 0, 'numpy.random.shuffle': 0, 'random.shuffle': 0, 'numpy.ndarray.sort': 0,
             'builtins.setattr': 0, 'setattr': 0, 'delattr': 0, 'numpy.add.at': 0, 'numpy.subtract.at': 0,
             'numpy.multiply.at': 0, 'numpy.divide.at': 0, 'numpy.maximum.at': 0, 'numpy.minimum.at': 0,
             'numpy.logical_or.at': 0, 'numpy.logical_and.at': 0, 'numpy.bitwise_or.at': 0, 'heapq.heapify': 0,
             'heapq.heappush': 0, 'heapq.heappop': 0, 'bisect.insort': 0, 'numpy.ndarray.fill': 0,
             'list.sort': 0, 'list.append': 0, 'dict.update': 0, 'numpy.lib.stride_tricks.__': 0, 'numpy.ndarray.put': 0,
             'numpy.ndarray.partition': 0, 'numpy.ndarray.itemset': 0, 'operator.setitem': 0, 'operator.iadd': 0,
             'operator.imul': 0, 'operator.isub': 0, 'operator.itruediv': 0}
OUT_KW = {'out', 'output'}
OVERWRITE_KW = {'overwrite_x', 'overwrite_input', 'overwrite_a', 'overwrite_b', 'overwrite_data', 'inplace', 'in_place'}
# numpy functions with a positional `out` (index)
OUT_POS = {}
for _n in '''add subtract multiply divide true_divide floor_divide power mod remainder maximum minimum fmax fmin hypot arctan2
 logical_and logical_or logical_xor bitwise_and bitwise_or bitwise_xor greater less equal not_equal greater_equal less_equal
 dot matmul clip_'''.split():
    OUT_POS['numpy.' + _n] = 2
for _n in '''sqrt exp log log10 log2 log1p expm1 abs absolute fabs sin cos tan arcsin arccos arctan square reciprocal negative
 positive sign floor ceil rint trunc conj conjugate logical_not invert isnan isfinite isinf exp2 cbrt sinh cosh tanh'''.split():
    OUT_POS['numpy.' + _n] = 1
OUT_POS['numpy.clip'] = 3
CONTAINER_FUNCS = {'list', 'tuple', 'zip', 'enumerate', 'reversed', 'iter', 'map', 'filter', 'sorted', 'dict', 'set', 'tqdm',
                   'tqdm.tqdm', 'next', 'copy.copy', 'tqdm.auto.tqdm', 'tqdm.notebook.tqdm'}


def stringy(e):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, str)
    if isinstance(e, ast.JoinedStr):
        return True
    if isinstance(e, ast.IfExp):
        return stringy(e.body) or stringy(e.orelse)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Mod)) and (stringy(e.left) or stringy(e.right))
    return False


class Summary:
    def __init__(self):
        self.mut = {}     # root -> (where description, lineno, chain)
        self.ret = None   # Val in terms of own roots
        self.fields = {}  # attr -> Val stored
        self.gwrites = {}  # (module, name) -> (lineno, text)


def src(n):
    try:
        return ast.unparse(n)
    except Exception:
        return '<expr>'


class Effects:
    def __init__(self, project):
        self.P = project
        self.sums = {f: Summary() for f in project.all_functions()}
        self.callsites = 0
        for f in project.all_functions():
            f._scalar = None
        self._fix()

    def _fix(self):
        funcs = list(self.P.all_functions())
        for it in range(12):
            changed = False
            for f in funcs:
                s = FuncEffects(self, f).run()
                old = self.sums[f]
                k = lambda q: (frozenset(q.mut), q.ret.key() if q.ret else None, tuple(sorted((a, v.key()) for a, v in q.fields.items())),
                               frozenset(q.gwrites))
                if k(s) != k(old):
                    changed = True
                self.sums[f] = s
            if not changed:
                break
        self.rounds = it + 1

    def class_fields(self, cls):
        """attr -> set of (method, Val) stored anywhere in the class."""
        out = {}
        for name, m in cls.methods.items():
            for a, v in self.sums[m].fields.items():
                out.setdefault(a, []).append((m, v))
        for b in cls.bases:
            for a, l in self.class_fields(b).items():
                out.setdefault(a, []).extend(l)
        return out


class FuncEffects:
    def __init__(self, E, f):
        self.E, self.P, self.f = E, E.P, f
        self.s = Summary()
        self.locals = {n.id for n in own_walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.params)
        self.globals = getattr(f, 'globals_', set())
        self.locals -= self.globals

    def run(self):
        env = {}
        f = self.f
        for p in f.params:
            if p == f.self_name:
                env[p] = Val(own={('self',)}, cls=f.cls)
            elif p in (f.vararg, f.kwarg):
                # the tuple / dict itself is fresh; its members are the caller's
                env[p] = Val(elems={('p', p)})
            else:
                env[p] = Val(own={('p', p)})
        if f.parent is not None:   # closures: captured names behave as roots of the parent
            self.closure = f.parent
        out = self.block(f.node.body if isinstance(f.node.body, list) else [f.node.body], env)
        if self.s.ret is None:
            self.s.ret = FRESH
        return self.s

    # -- statements -------------------------------------------------------------------
    def block(self, stmts, env):
        for st in stmts:
            if env is None:
                # unreachable code is still scanned with an empty env for robustness
                return None
            env = self.stmt(st, env)
        return env

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            out[k] = join(a.get(k), b.get(k))
        return out

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                env = self.assign(t, v, env, st)
            return env
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                return self.assign(st.target, self.ev(st.value, env), env, st)
            return env
        if isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            t = st.target
            if isinstance(t, ast.Name):
                cur = self.ev(ast.Name(id=t.id, ctx=ast.Load()), env)
                if self.is_unit(st.value) or stringy(st.value):
                    env = dict(env); env[t.id] = FRESH
                    return env
                if not self.scalar_name(t.id, cur):
                    self.mutate(cur, st, 'augmented assignment to ' + t.id)
                    if isinstance(st.op, ast.Add):   # list += list keeps elements
                        env = dict(env); env[t.id] = Val(cur.own, cur.elems | v.elems, None, cur.weak)
                else:
                    env = dict(env); env[t.id] = FRESH
                if t.id in self.globals:
                    self.s.gwrites[(self.f.module.name, t.id)] = (st.lineno, src(st))
                return env
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, env)
                self.ev(t.slice, env)
                self.mutate(base, st, 'augmented item assignment')
                return env
            if isinstance(t, ast.Attribute):
                base = self.ev(t.value, env)
                if isinstance(t.value, ast.Name) and t.value.id == self.f.self_name:
                    cur = self.field(t.attr, base)
                    if not self.is_unit(st.value) and not stringy(st.value) and not self.field_scalar(t.attr):
                        self.mutate(cur, st, 'augmented assignment to self.' + t.attr)
                else:
                    self.mutate(base, st, 'augmented attribute assignment')
                return env
            return env
        if isinstance(st, ast.Expr):
            self.ev(st.value, env)
            return env
        if isinstance(st, ast.Return):
            if st.value is not None:
                self.s.ret = join(self.s.ret, self.ev(st.value, env))
            return None
        if isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ev(st.exc, env)
            return None
        if isinstance(st, ast.If):
            self.ev(st.test, env)
            a = self.block(st.body, self.refine(st.test, True, dict(env)))
            b = self.block(st.orelse, self.refine(st.test, False, dict(env)))
            return self.merge(a, b)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            el = self.element(it, st.iter)
            cur = dict(env)
            for _ in range(2):
                e = self.assign(st.target, el, dict(cur), st)
                e = self.block(st.body, e)
                cur = self.merge(cur, e)
                cur = self.merge(cur, getattr(self, '_brk', None))
            return self.block(st.orelse, cur) if st.orelse else cur
        if isinstance(st, ast.While):
            self.ev(st.test, env)
            cur = dict(env)
            for _ in range(2):
                cur = self.merge(cur, self.block(st.body, dict(cur)))
            return self.block(st.orelse, cur) if st.orelse else cur
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    env = self.assign(i.optional_vars, v, env, st)
            return self.block(st.body, env)
        if isinstance(st, ast.Try):
            a = self.block(st.body, dict(env))
            start = self.merge(dict(env), a)
            outs = []
            for h in st.handlers:
                e = dict(start)
                if h.name:
                    e[h.name] = FRESH
                outs.append(self.block(h.body, e))
            if st.orelse and a is not None:
                a = self.block(st.orelse, a)
            r = a
            for o in outs:
                r = self.merge(r, o)
            if st.finalbody:
                r2 = self.block(st.finalbody, dict(r if r is not None else start))
                return r2 if r is not None else None
            return r
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env), st, 'del item')
            return env
        if isinstance(st, (ast.Break, ast.Continue)):
            self._brk = self.merge(getattr(self, '_brk', None), dict(env))
            return None
        return env

    def refine(self, test, pos, env):
        return env

    def is_unit(self, e):
        """`x *= units.Mpc` rebinds: an ndarray times a unit is a new Quantity."""
        for n in ast.walk(e):
            b = self.P.resolve_expr(self.f.module, n, self.f, self.locals) if isinstance(n, (ast.Attribute, ast.Name)) else None
            if b and b[0] == 'ext' and ('units' in b[1].split('.')):
                return True
        return False

    def scalar_name(self, name, val):
        """True when an augmented assignment to this name rebinds a number rather than writing memory."""
        roots = val.own
        if not roots:
            return True
        ok = True
        for r in roots:
            if r[0] == 'p':
                if not scalar_param(self.f, r[1]):
                    ok = False
            elif r[0] == 's':
                if not self.field_scalar(r[1]):
                    ok = False
            elif r[0] == 'g':
                ok = ok and self.global_scalar(r)
            else:
                ok = False
        if ok:
            return True
        if val.weak and not self.used_as_array(name):
            return True
        return False

    def global_scalar(self, r):
        m = self.P.modules.get(r[1])
        for st in m.tree.body if m else []:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2] for t in st.targets):
                return not isinstance(st.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp))
        return True

    def used_as_array(self, name):
        for n in own_walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and \
               n.attr in ('shape', 'mean', 'sum', 'flatten', 'ravel', 'size', 'ndim', 'max', 'min', 'std', 'T', 'copy'):
                return True
        return False

    def field_scalar(self, attr):
        cls = self.f.cls
        if cls is None:
            return False
        vals = []
        for m in cls.methods.values():
            for n in own_walk(m.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == m.self_name:
                            vals.append((m, n.value))
        if not vals:
            return False
        for m, v in vals:
            if isinstance(v, ast.Constant):
                continue
            if isinstance(v, ast.Name) and v.id in m.params and scalar_param(m, v.id):
                continue
            return False
        return True

    def assign(self, t, v, env, st):
        if isinstance(t, ast.Name):
            env = dict(env)
            if t.id in self.globals:
                self.s.gwrites[(self.f.module.name, t.id)] = (st.lineno, src(st))
            env[t.id] = v
            return env
        if isinstance(t, (ast.Tuple, ast.List)):
            if v.tup is not None and len(v.tup) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v.tup):
                    env = self.assign(e, x, env, st)
            else:
                el = Val(v.own | v.elems, v.elems, None, True)
                for e in t.elts:
                    env = self.assign(e.value if isinstance(e, ast.Starred) else e, el, env, st)
            return env
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(base, st, 'item assignment')
            # the container now holds v
            root = t.value
            if isinstance(root, ast.Name) and v.own | v.elems and not base.own and is_containerish(t.value, v):
                env = dict(env)
                b = env.get(root.id, FRESH)
                env[root.id] = Val(b.own, b.elems | v.all(), None, b.weak)
            return env
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            if ('self',) in base.own:
                cur = self.s.fields.get(t.attr)
                self.s.fields[t.attr] = join(cur, v) if cur is not None else v
                env = dict(env)
                env['self.' + t.attr] = v
                return env
            b = self.P.resolve_expr(self.f.module, t.value, self.f, self.locals)
            if b and b[0] == 'mod':
                self.s.gwrites[(b[1].name, t.attr)] = (st.lineno, src(st))
                return env
            if b and b[0] in ('func', 'class'):
                self.s.gwrites[(b[1].module.name, b[1].name + '.' + t.attr)] = (st.lineno, src(st))
                return env
            self.mutate(base, st, 'attribute assignment')
            return env
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, env, st)
        return env

    def mutate(self, v, node, what, chain=()):
        for r in v.own:
            if r == ('self',):
                continue
            if r not in self.s.mut:
                self.s.mut[r] = (what + ': `%s`' % src(node).split('\n')[0][:110], getattr(node, 'lineno', 0), chain)

    # -- expressions ------------------------------------------------------------------
    def field(self, attr, base):
        own = {('s', attr)}
        return Val(own)

    def element(self, v, it=None):
        """value of one element when iterating over v"""
        if v.tup is not None:
            r = None
            for t in v.tup:
                r = join(r, t)
            return r or FRESH
        own = set(v.own) | set(v.elems)
        # range / enumerate of fresh things stay fresh
        return Val(own, v.elems, None, True)

    def index_kind(self, s, env):
        """'slice' (basic -> view), 'int' (element), 'fancy' (copy), 'unknown'"""
        if isinstance(s, ast.Tuple):
            ks = [self.index_kind(e, env) for e in s.elts]
            if 'fancy' in ks:
                return 'fancy'
            if 'unknown' in ks:
                return 'unknown'
            return 'slice' if 'slice' in ks else 'int'
        if isinstance(s, ast.Slice):
            return 'slice'
        if isinstance(s, ast.Constant):
            if s.value is Ellipsis or s.value is None:
                return 'slice'
            return 'int'
        if isinstance(s, ast.UnaryOp):
            if isinstance(s.op, ast.USub):
                return self.index_kind(s.operand, env)
            if isinstance(s.op, ast.Invert):
                return 'fancy'
            if isinstance(s.op, ast.Not):
                return 'int'
        if isinstance(s, (ast.Compare, ast.List, ast.ListComp)):
            return 'fancy'
        if isinstance(s, ast.BinOp):
            if isinstance(s.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return 'fancy'
            a, b = self.index_kind(s.left, env), self.index_kind(s.right, env)
            if 'fancy' in (a, b):
                return 'fancy'
            if a == b == 'int':
                return 'int'
            return 'unknown'
        if isinstance(s, ast.Attribute) and s.attr == 'newaxis':
            return 'slice'
        if isinstance(s, ast.Call):
            b = self.P.resolve_expr(self.f.module, s.func, self.f, self.locals)
            n = b[1] if b and b[0] in ('ext', 'builtin') else ''
            if n in ('slice',):
                return 'slice'
            if n in ('int', 'len', 'round'):
                return 'int'
            if n in ('numpy.argmin', 'numpy.argmax'):
                return 'int'
            if n in ('numpy.where', 'numpy.argsort', 'numpy.nonzero', 'numpy.isnan', 'numpy.isfinite', 'numpy.logical_and',
                     'numpy.logical_or', 'numpy.logical_not', 'numpy.arange', 'numpy.ix_', 'numpy.argwhere', 'numpy.flatnonzero',
                     'numpy.array', 'numpy.invert'):
                return 'fancy'
            return 'unknown'
        if isinstance(s, ast.Name):
            k = self.name_index_kind(s.id)
            return k
        return 'unknown'

    def name_index_kind(self, name, depth=0):
        """classify an index variable by everything assigned to it in this function."""
        busy = self.__dict__.setdefault('_busy', set())
        if name in busy:
            return 'int'            # a variable updated from itself keeps the kind of its other values
        busy.add(name)
        try:
            return self._name_index_kind(name)
        finally:
            busy.discard(name)

    def _name_index_kind(self, name):
        kinds = set()
        for n in own_walk(self.f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        v = n.value
                        if isinstance(v, ast.Name):
                            kinds.add(self.name_index_kind(v.id) if v.id != name else 'unknown')
                        else:
                            kinds.add(self.index_kind(v, {}))
            elif isinstance(n, ast.AugAssign):
                pass
            elif isinstance(n, ast.For):
                it = n.iter
                fn = src(it.func) if isinstance(it, ast.Call) else ''
                if isinstance(n.target, ast.Name) and n.target.id == name:
                    kinds.add('int' if fn in ('range', 'tqdm', 'xrange', 'numba.prange', 'nb.prange', 'prange', 'np.arange') else 'unknown')
                elif isinstance(n.target, ast.Tuple) and fn == 'enumerate' and isinstance(n.target.elts[0], ast.Name) and n.target.elts[0].id == name:
                    kinds.add('int')
        if not kinds and name in self.f.params:
            t = doc_type(self.f, name)
            if 'int' in t and 'array' not in t:
                return 'int'
            if scalar_param(self.f, name):
                return 'int'
        if len(kinds) == 1:
            return kinds.pop()
        if kinds and 'fancy' not in kinds and 'unknown' not in kinds:
            return 'slice'
        return 'unknown'

    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return FRESH

    def ev_Constant(self, e, env):
        return FRESH

    def ev_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.locals and e.id not in self.f.params:
            return FRESH
        # closure variable of an enclosing function: root named after the parent's variable
        g = self.f.parent
        while g is not None:
            if e.id in g.params or any(isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in own_walk(g.node)):
                return Val(own={('c', e.id)})
            g = g.parent
        b = self.P.lookup(self.f.module, e.id, self.f)
        if b and b[0] == 'var':
            return Val(own={('g', b[1].name, b[2])})
        return FRESH

    def ev_Attribute(self, e, env):
        b = self.P.resolve_expr(self.f.module, e, self.f, self.locals)
        if b:
            if b[0] == 'var':
                return Val(own={('g', b[1].name, b[2])})
            if b[0] != 'missing':
                return FRESH
        v = self.ev(e.value, env)
        if ('self',) in v.own:
            k = 'self.' + e.attr
            if k in env:
                return env[k]
            cls = self.f.cls
            meth = self.P.find_method(cls, e.attr) if cls else None
            if meth and meth.is_property:
                return self.E.sums[meth].ret or FRESH
            return self.field(e.attr, v)
        if e.attr in ALIAS_ATTRS_NO:
            return FRESH
        if v.cls is not None and not v.own:
            return Val(v.elems, v.elems, None, True)
        return Val(v.own, v.elems, None, e.attr not in ('T', 'flat', 'real', 'imag', 'value'))

    def ev_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        k = self.index_kind(e.slice, env)
        if v.tup is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            try:
                return v.tup[e.slice.value]
            except IndexError:
                pass
        if k == 'slice':
            return Val(v.own, v.elems, v.tup if v.tup is None else None, False)
        if k == 'fancy':
            return FRESH
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            return Val(v.own | v.elems, v.elems, None, False)
        if k == 'int':
            return Val(v.own | v.elems, v.elems, None, True)
        # unknown index: an element of a container may alias; of an array most likely a copy
        return Val(v.elems | (v.own if k == 'unknown' else EMPTY), v.elems, None, True)

    def ev_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env)
        return FRESH

    def ev_Tuple(self, e, env):
        vals = tuple(self.ev(x.value if isinstance(x, ast.Starred) else x, env) for x in e.elts)
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = set()
            for v in vals:
                r |= v.all()
            return Val(EMPTY, r)
        return Val(EMPTY, EMPTY, vals)

    def ev_List(self, e, env):
        r = set()
        for x in e.elts:
            r |= self.ev(x.value if isinstance(x, ast.Starred) else x, env).all()
        return Val(EMPTY, r)

    ev_Set = ev_List

    def ev_Dict(self, e, env):
        r = set()
        for k, x in zip(e.keys, e.values):
            if k is not None:
                self.ev(k, env)
            r |= self.ev(x, env).all()
        return Val(EMPTY, r)

    def comp(self, e, env, elts):
        env = dict(env)
        for g in e.generators:
            el = self.element(self.ev(g.iter, env), g.iter)
            env = self.assign(g.target, el, env, e)
            for c in g.ifs:
                self.ev(c, env)
        r = set()
        for x in elts:
            v = self.ev(x, env)
            if not v.weak or v.own:
                r |= v.all()
        return Val(EMPTY, r)

    def ev_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])

    ev_SetComp = ev_ListComp
    ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, env):
        return self.comp(e, env, [e.key, e.value])

    def ev_IfExp(self, e, env):
        self.ev(e.test, env)
        return join(self.ev(e.body, env), self.ev(e.orelse, env))

    def ev_BoolOp(self, e, env):
        r = None
        for x in e.values:
            r = join(r, self.ev(x, env))
        return r

    def ev_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Add) and (isinstance(e.left, (ast.List, ast.ListComp)) or isinstance(e.right, (ast.List, ast.ListComp))):
            return Val(EMPTY, a.elems | b.elems)
        return FRESH

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def ev_Starred(self, e, env):
        return self.ev(e.value, env)

    def ev_Await(self, e, env):
        return self.ev(e.value, env)

    def ev_Lambda(self, e, env):
        # body is evaluated with the current environment to catch stores made through it
        e2 = dict(env)
        for a in e.args.args:
            e2[a.arg] = FRESH
        self.ev(e.body, e2)
        return FRESH

    def ev_Call(self, e, env):
        self.E.callsites += 1
        fn = e.func
        b = self.P.resolve_expr(self.f.module, fn, self.f, self.locals - set(self.P.local_imports(self.f)) - set(self.f.nested))
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        # keyword based in-place requests
        for k in e.keywords:
            if k.arg in OUT_KW and not (isinstance(k.value, ast.Constant)):
                tgt = kws[k.arg]
                if b is None or b[0] != 'func':
                    self.mutate(tgt, e, 'out= argument')
            if k.arg in OVERWRITE_KW and isinstance(k.value, ast.Constant) and k.value.value is True and args:
                if b is None or b[0] != 'func':
                    self.mutate(args[0], e, k.arg + '=True')
        if b is None and isinstance(fn, ast.Attribute):
            return self.method_call(e, fn, args, kws, env)
        if b is None:
            # call of a local value: functools.partial, operator passed as parameter, ...
            self.ev(fn, env)
            return FRESH
        kind = b[0]
        if kind == 'func':
            return self.repo_call(b[1], e, args, kws, None, env)
        if kind == 'class':
            init = self.P.find_method(b[1], '__init__')
            held = set()
            if init is not None:
                mp = self.map_args(init, e, args, kws, True)
                self.apply_summary(init, mp, e)
                for a, l in self.E.class_fields(b[1]).items():
                    for meth, v in l:
                        if meth is init:
                            for r in v.all():
                                if r[0] == 'p' and r[1] in mp:
                                    held |= mp[r[1]].all()
            return Val(EMPTY, held, None, False, b[1])
        name = b[1] if kind in ('ext', 'ext?', 'builtin') else ''
        if name in MUT_FUNCS and len(args) > MUT_FUNCS[name]:
            self.mutate(args[MUT_FUNCS[name]], e, name)
        if name in OUT_POS and len(args) > OUT_POS[name]:
            self.mutate(args[OUT_POS[name]], e, name + ' with output argument')
        if name in ALIASING and (args or 'a' in kws):
            a0 = args[0] if args else kws['a']
            if name in ('numpy.split', 'numpy.array_split', 'numpy.broadcast_arrays', 'numpy.hsplit', 'numpy.vsplit', 'numpy.dsplit'):
                return Val(EMPTY, a0.all())
            if any(k.arg == 'dtype' for k in e.keywords):
                return Val(a0.own, EMPTY, None, a0.weak)
            return Val(a0.own, a0.elems if a0.own else EMPTY, None, a0.weak)
        if name in ALIAS_IF_NOCOPY and args:
            for k in e.keywords:
                if k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value:
                    if name == 'numpy.nan_to_num':
                        self.mutate(args[0], e, 'nan_to_num(copy=False)')
                    return Val(args[0].own, EMPTY, None, args[0].weak)
            if name.startswith('numpy.ma.') and not name.startswith('numpy.ma.masked'):
                return Val(args[0].own)
            return FRESH
        if name in CONTAINER_FUNCS or name.split('.')[-1] == 'tqdm':
            els = set()
            for a in args:
                els |= a.all()
            if name == 'enumerate' or name == 'zip':
                comps = []
                if name == 'enumerate':
                    comps = [FRESH, self.element(args[0])] if args else []
                else:
                    comps = [self.element(a) for a in args]
                return Val(EMPTY, EMPTY, (Val(EMPTY, EMPTY, tuple(comps)),))
            return Val(EMPTY, els)
        if name == 'getattr' and args:
            return Val(args[0].own | args[0].elems, args[0].elems, None, True)
        return FRESH

    def method_call(self, e, fn, args, kws, env):
        recv = self.ev(fn.value, env)
        name = fn.attr
        # method of self or of an object of a known repo class
        cls = None
        if ('self',) in recv.own and self.f.cls is not None:
            cls = self.f.cls
        elif recv.cls is not None:
            cls = recv.cls
        if cls is not None:
            meth = self.P.find_method(cls, name)
            if meth is not None:
                return self.repo_call(meth, e, args, kws, recv, env)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and self.f.cls:
            for bcls in self.f.cls.bases:
                meth = self.P.find_method(bcls, name)
                if meth is not None:
                    return self.repo_call(meth, e, args, kws, Val(own={('self',)}, cls=self.f.cls), env)
        if name in MUT_METHODS and ('self',) not in recv.own:
            module_like = self.P.resolve_expr(self.f.module, fn.value, self.f, self.locals)
            if not (module_like and module_like[0] in ('mod', 'ext', 'ext?', 'builtin')):
                if not (name in ('pop', 'get', 'add', 'update', 'insert', 'append', 'remove', 'extend', 'setdefault', 'clear', 'sort', 'fill',
                                 'reverse', 'resize', 'put', 'partition', 'itemset', 'setflags', 'popitem', 'discard') and False):
                    self.mutate(recv, e, '.%s()' % name)
                if isinstance(fn.value, ast.Name) and name in ('append', 'extend', 'insert', 'add', 'appendleft'):
                    els = set()
                    for a in args:
                        els |= a.all()
                    if els and fn.value.id in env:
                        b = env[fn.value.id]
                        env[fn.value.id] = Val(b.own, b.elems | els, None, b.weak)
        if name == 'astype' or name == 'copy' or name == 'flatten':
            for k in e.keywords:
                if k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False:
                    return Val(recv.own, EMPTY, None, recv.weak)
            if name == 'copy':
                return Val(EMPTY, recv.elems)
            return FRESH
        if name in ALIAS_METHODS:
            if name in ('get', 'values', 'items', 'pop', 'popitem', 'setdefault'):
                return Val(recv.own | recv.elems, recv.elems, None, True)
            return Val(recv.own, recv.elems, None, recv.weak)
        return FRESH

    def map_args(self, f, e, args, kws, bound):
        mp = {}
        pos = list(f.pos[1:] if bound else f.pos)
        starred = False
        vals = list(args)
        for a, v in zip(e.args, vals):
            if isinstance(a, ast.Starred):
                starred = True
                for p in pos:
                    mp[p] = Val(v.elems | v.own, v.elems, None, True)
                break
            if pos:
                mp[pos.pop(0)] = v
            elif f.vararg:
                cur = mp.get(f.vararg, FRESH)
                mp[f.vararg] = Val(cur.own | v.own, cur.elems | v.elems)
        for k in e.keywords:
            if k.arg is None:
                if f.kwarg:
                    v = kws[None]
                    mp[f.kwarg] = Val(v.elems, v.elems)
            elif k.arg in f.pos or k.arg in f.kwonly:
                mp[k.arg] = kws[k.arg]
            elif f.kwarg:
                mp[f.kwarg] = join(mp.get(f.kwarg), kws[k.arg])
        return mp

    def apply_summary(self, f, mp, e, recv=None):
        s = self.E.sums[f]
        for r, (what, line, chain) in s.mut.items():
            link = (f.where + ' ' + what,) + chain
            if r[0] == 'p':
                if r[1] in mp:
                    self.mutate(mp[r[1]], e, 'passed to %s, which modifies its %r' % (f.name, r[1]), link)
                elif r[1] in f.defaults and isinstance(f.defaults[r[1]], (ast.List, ast.Dict, ast.Set)):
                    pass
            elif r[0] == 's':
                if recv is not None and ('self',) in recv.own:
                    self.mutate(Val({r}), e, 'call of %s, which modifies field %r' % (f.name, r[1]), link)
                elif recv is not None:
                    # object of a class held locally: what its field may hold
                    self.mutate(Val(recv.elems), e, 'call of %s, which modifies field %r' % (f.name, r[1]), link)
            elif r[0] == 'g':
                if r not in self.s.mut:
                    self.s.mut[r] = ('call of ' + f.name, e.lineno, link)
            elif r[0] == 'c':
                # closure variable of the enclosing function
                if f.parent is self.f:
                    pass
        for g, w in s.gwrites.items():
            self.s.gwrites.setdefault(g, (e.lineno, 'via ' + f.name))

    def repo_call(self, f, e, args, kws, recv, env):
        bound = recv is not None and f.cls is not None and not f.is_static
        if f.cls is not None and not f.is_static and recv is None and isinstance(e.func, ast.Attribute):
            bound = False   # Class.method(obj, ...)
        mp = self.map_args(f, e, args, kws, bound)
        self.apply_summary(f, mp, e, recv)
        # closures: mutated captured variables of this function
        s = self.E.sums[f]
        if f.parent is self.f:
            for r, (what, line, chain) in s.mut.items():
                if r[0] == 'c' and r[1] in env:
                    self.mutate(env[r[1]], e, 'call of nested %s' % f.name, ((f.where + ' ' + what),) + chain)
        if recv is not None and ('self',) in recv.own:
            for a, v in s.fields.items():
                env.pop('self.' + a, None)
                sv = self.subst(v, mp, f, env, recv)
                cur = self.s.fields.get(a)
                self.s.fields[a] = join(cur, sv) if cur is not None else sv
        if s.ret is None:
            return FRESH
        return self.subst(s.ret, mp, f, env, recv)

    def subst(self, v, mp, f, env, recv):
        own, elems = set(), set(v.elems and ())
        weak = v.weak
        cls = v.cls
        for r in v.own:
            if r[0] == 'p':
                if r[1] in mp:
                    own |= mp[r[1]].own
                    elems |= mp[r[1]].elems
            elif r[0] == 's':
                if recv is not None and ('self',) in recv.own:
                    own.add(r)
                elif recv is not None:
                    own |= recv.elems
            elif r[0] == 'g':
                own.add(r)
            elif r[0] == 'c':
                if f.parent is self.f and r[1] in env:
                    own |= env[r[1]].own
            elif r == ('self',):
                if recv is not None:
                    own |= recv.own
                    cls = cls or recv.cls
        for r in v.elems:
            if r[0] == 'p':
                if r[1] in mp:
                    elems |= mp[r[1]].all()
            elif r[0] in ('s', 'g'):
                elems.add(r) if not (r[0] == 's' and not (recv is not None and ('self',) in recv.own)) else None
            elif r[0] == 'c' and f.parent is self.f and r[1] in env:
                elems |= env[r[1]].all()
        tup = tuple(self.subst(t, mp, f, env, recv) for t in v.tup) if v.tup is not None else None
        return Val(own, elems, tup, weak, cls)


def is_containerish(target, v):
    """Storing an array into a slot of a fresh array copies it; of a list/dict keeps a reference.
    We keep the reference only for dict-like string keys or unknown containers (over-approximation is
    avoided because a fresh ndarray slot never aliases)."""
    return False


_SCALAR_WORDS = ('int', 'float', 'bool', 'str', 'string', 'scalar', 'number', 'integer', 'boolean')
_ARRAY_WORDS = ('array', 'list', 'dict', 'tuple', 'ndarray', 'cube', 'numpy', 'sequence', 'image', 'iterable', 'map', 'object')


def scalar_param(f, name):
    """evidence that a parameter is a plain number/flag/string and never an array."""
    if name in (f.vararg, f.kwarg):
        return False
    t = doc_type(f, name)
    if t:
        if any(w in t for w in _ARRAY_WORDS):
            return False
        if any(w in t for w in _SCALAR_WORDS):
            return True
    d = f.defaults.get(name)
    if d is not None:
        c = d.operand if isinstance(d, ast.UnaryOp) else d
        if isinstance(c, ast.Constant) and c.value is not None and not array_use(f, name):
            return True
        if isinstance(c, ast.BinOp) and not array_use(f, name):
            return True
    if array_use(f, name):
        return False
    # no array-like use anywhere and a conventional scalar name
    return name in ('z', 'n', 'i', 'j', 'k', 'ncells', 'depth_mhz', 'obs_time', 'int_time', 'boxsize', 'nu', 'sigma', 'fwhm',
                    'seed', 'random_seed', 'n_cells', 'size', 'verbose', 'los_axis', 'redshift', 'resolution') and d is None and not t and False


def array_use(f, name):
    for n in own_walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and \
                n.attr in ('shape', 'mean', 'sum', 'flatten', 'ravel', 'size', 'ndim', 'max', 'min', 'std', 'T', 'copy', 'astype', 'append'):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'list', 'sorted', 'enumerate', 'zip') and \
                any(isinstance(a, ast.Name) and a.id == name for a in n.args):
            return True
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == name:
            return True
    return False
