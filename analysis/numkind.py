"""Number kinds: which values are real, which are whole, and which storage takes its element type from the caller.

A forward abstract interpretation over the syntax trees.  Every value carries the set of kinds it may have:
  I  element type chosen by the caller (may be an integer type)      i  integer or boolean by construction
  W  floating point but whole (1., floor(x))                         F  real-valued whatever the caller passed
  N  not a number                                                    ?  unknown
and whether it is an array.  Calls of package functions are analysed with the kinds of their arguments.
"""
import ast

UNK = frozenset('?')


class V:
    __slots__ = ('k', 'arr', 'items', 'tag', 'roots')

    def __init__(self, k, arr=None, items=None, tag=None, roots=None):
        self.k, self.arr, self.items, self.tag = frozenset(k), arr, items, tag
        # the arguments whose element types decide this one's (None: not known)
        self.roots = roots if 'I' in self.k else frozenset()

    def key(self):
        return (self.k, self.arr, tuple(i.key() for i in self.items) if self.items is not None else None, self.tag, self.roots)

    def __repr__(self):
        return '%s%s' % (''.join(sorted(self.k)), {True: '[]', False: '', None: '~'}[self.arr])


Q = V('?')
FL = V('F', False)
FA = V('F', True)
IN = V('i', False)
IA = V('i', True)
NO = V('N', False)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a.key() == b.key():
        return a
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = [join(x, y) for x, y in zip(a.items, b.items)]
    return V(a.k | b.k, a.arr if a.arr == b.arr else None, items, a.tag if a.tag == b.tag else None, both(a, b))


def plain(v):
    return v.tag is None or v.tag == ('param',)


def both(*vs):
    r = frozenset()
    for v in vs:
        if v.roots is None:
            return None
        r |= v.roots
    return r


def prom1(a, b):
    if '?' in (a, b) or 'N' in (a, b):
        return '?'
    if 'F' in (a, b):
        return 'F'
    if 'W' in (a, b):
        return 'W'
    if 'I' in (a, b):
        return 'I'
    return 'i'


def arrness(*vs):
    if any(v.arr is True for v in vs):
        return True
    if all(v.arr is False for v in vs):
        return False
    return None


def promote(*vs):
    ks = vs[0].k
    for v in vs[1:]:
        ks = frozenset(prom1(a, b) for a in ks for b in v.k)
    return V(ks, arrness(*vs), roots=both(*vs))


SAME = {'roll', 'flip', 'reshape', 'transpose', 'swapaxes', 'moveaxis', 'squeeze', 'ravel', 'repeat', 'tile', 'take', 'sort', 'unique', 'abs', 'absolute', 'copy', 'asarray', 'array', 'asanyarray',
        'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to', 'expand_dims', 'pad', 'max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'sum', 'nansum', 'cumsum',
        'prod', 'diff', 'fliplr', 'flipud', 'rot90', 'real', 'imag', 'nan_to_num', 'delete', 'sign', 'square', 'conj', 'conjugate', 'negative', 'positive', 'rollaxis', 'trim_zeros', 'resize', 'extract',
        'compress', 'partition', 'cumprod', 'ptp', 'einsum', 'array_split', 'split', 'diag', 'diagonal', 'triu', 'tril', 'trace', 'round', 'around', 'rint', 'require', 'flatten'}
SCALARIZING = {'max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'sum', 'nansum', 'prod', 'ptp', 'trace'}
KEEPS_SCALAR = {'abs', 'absolute', 'square', 'sign', 'negative', 'round', 'around', 'rint', 'real', 'imag', 'conj'}
PROMOTE = {'add', 'subtract', 'multiply', 'maximum', 'minimum', 'fmax', 'fmin', 'dot', 'matmul', 'outer', 'cross', 'inner', 'vdot', 'tensordot', 'clip', 'mod', 'remainder', 'floor_divide', 'power', 'convolve', 'kron', 'append'}
FLOATS = {'sqrt', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sinh', 'cosh', 'tanh', 'hypot', 'mean', 'average', 'std', 'var', 'median',
          'nanmean', 'nanstd', 'nanvar', 'nanmedian', 'percentile', 'quantile', 'linspace', 'logspace', 'geomspace', 'divide', 'true_divide', 'interp', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'sinc', 'trapz', 'trapezoid',
          'gradient', 'cov', 'corrcoef', 'float64', 'float32', 'cbrt', 'reciprocal_', 'polyval', 'angle', 'hanning', 'hamming', 'fftfreq', 'rfftfreq', 'exp2', 'float_power', 'complex128', 'nanpercentile', 'bartlett', 'blackman', 'kaiser'}
WHOLE = {'floor', 'ceil', 'trunc', 'fix'}
INTS = {'argmin', 'argmax', 'argsort', 'argwhere', 'nonzero', 'flatnonzero', 'digitize', 'searchsorted', 'size', 'ndim', 'count_nonzero', 'isnan', 'isinf', 'isfinite', 'logical_and', 'logical_or', 'logical_not', 'logical_xor',
        'isin', 'in1d', 'any', 'all', 'isclose', 'allclose', 'array_equal', 'shape', 'ravel_multi_index', 'unravel_index', 'lexsort', 'equal', 'greater', 'less', 'greater_equal', 'less_equal', 'not_equal', 'int64', 'int32', 'intp', 'iscomplexobj',
        'isrealobj', 'isscalar', 'signbit'}
LIKE = {'zeros_like', 'ones_like', 'empty_like', 'full_like'}
STACK = {'concatenate', 'vstack', 'hstack', 'stack', 'column_stack', 'dstack', 'block', 'r_', 'c_'}
RANDF = {'normal', 'uniform', 'rand', 'randn', 'random', 'random_sample', 'standard_normal', 'exponential', 'lognormal', 'beta', 'gamma', 'rayleigh', 'laplace', 'multivariate_normal', 'chisquare', 'weibull', 'triangular'}
FILTERS = {'gaussian_filter', 'gaussian_filter1d', 'uniform_filter', 'uniform_filter1d', 'zoom', 'shift', 'rotate', 'affine_transform', 'map_coordinates', 'geometric_transform', 'gaussian_laplace', 'gaussian_gradient_magnitude',
           'sobel', 'laplace', 'prewitt', 'convolve', 'convolve1d', 'correlate', 'correlate1d', 'generic_laplace'}
KERNEL = {'convolve', 'convolve1d', 'correlate', 'correlate1d'}
SAMPLING = {'zoom', 'shift', 'rotate', 'affine_transform', 'map_coordinates', 'geometric_transform'}
INTERPS = {'interp1d', 'RegularGridInterpolator', 'UnivariateSpline', 'InterpolatedUnivariateSpline', 'CubicSpline', 'PchipInterpolator', 'Akima1DInterpolator', 'LinearNDInterpolator', 'RectBivariateSpline', 'RBFInterpolator',
           'make_interp_spline', 'interpn_', 'interp2d', 'poly1d', 'NearestNDInterpolator_'}
FLOATFUNCS = {'quad', 'splev', 'simpson', 'simps', 'trapz', 'trapezoid', 'cumtrapz', 'cumulative_trapezoid', 'odeint', 'brentq', 'newton', 'fftconvolve', 'gammainc', 'gamma', 'erf', 'erfc', 'j1', 'jn', 'j0', 'spherical_jn', 'griddata', 'pdist', 'cdist',
              'distance_transform_edt', 'interpn', 'fsolve', 'romberg', 'dblquad', 'fixed_quad', 'simpson'}
METHF = {'mean', 'std', 'var'}
METHS = {'copy', 'sum', 'max', 'min', 'cumsum', 'prod', 'ptp', 'flatten', 'ravel', 'reshape', 'transpose', 'swapaxes', 'squeeze', 'repeat', 'take', 'conj', 'conjugate', 'diagonal', 'item', 'tolist', 'clip', 'round', 'cumprod', 'dot', 'trace', 'get', 'byteswap', 'newbyteorder'}
METHI = {'argmin', 'argmax', 'argsort', 'nonzero', 'any', 'all', 'searchsorted'}
ARRAYISH = {'shape', 'ndim', 'size', 'astype', 'dtype', 'T', 'flatten', 'ravel', 'reshape', 'mean', 'std', 'sum', 'max', 'min', 'transpose', 'squeeze', 'argmin', 'argmax', 'cumsum', 'swapaxes', 'nonzero', 'fill', 'flat', 'var', 'any', 'all', 'real', 'imag', 'conj'}


class Kinds:
    def __init__(self, P, report, depth=12):
        self.P, self.report, self.depth = P, report, depth
        self.memo = {}
        self.stack = []
        self.visited = set()
        self.stores = 0
        self.unk_stores = 0
        self.consts = {}

    # -- functions -------------------------------------------------------------------------
    def param_values(self, f):
        env = {}
        array = self.arrayish(f)
        pos = list(f.params)
        for p in pos:
            if p in ('self', 'cls'):
                env[p] = NO
                continue
            d = f.defaults.get(p)
            if isinstance(d, ast.Constant) and isinstance(d.value, str):
                env[p] = NO
            elif isinstance(d, ast.Constant) and isinstance(d.value, bool):
                env[p] = IN
            elif d is None or isinstance(d, ast.Constant) or isinstance(d, (ast.UnaryOp, ast.BinOp, ast.Attribute, ast.Name)):
                env[p] = V('I', True if p in array else None, roots=frozenset([p]), tag=('param',))
            else:
                env[p] = Q
        a = f.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = Q
        return env

    def arrayish(self, f):
        out = set()
        ps = set(f.params)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ps and n.attr in ARRAYISH:
                out.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LIKE | {'mean', 'roll', 'fftn'} and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in ps:
                out.add(n.args[0].id)
        return out

    def top(self, f):
        return self.function(f, self.param_values(f))

    def function(self, f, env):
        key = (f, tuple(sorted((k, v.key() if isinstance(v, V) else v) for k, v in env.items())).__hash__())
        if key in self.memo:
            return self.memo[key]
        if f in self.stack or len(self.stack) >= self.depth:
            return Q
        self.stack.append(f)
        self.visited.add(f)
        try:
            fr = Frame(self, f)
            env = dict(env)
            if isinstance(f.node, ast.Lambda):
                r = fr.ev(f.node.body, env)
            else:
                fr.block(f.node.body, env)
                r = fr.ret if fr.ret is not None else NO
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r


class Frame:
    def __init__(self, K, f):
        self.K, self.f, self.P, self.m = K, f, K.P, f.module
        self.ret = None
        self.shadow = frozenset({n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.params)) - set(self.P.local_imports(f)) - set(f.nested)

    def bad(self, rule, node, what, msg):
        self.K.report(rule, self.f, node, what, msg)

    # -- statements ------------------------------------------------------------------------
    def block(self, stmts, env):
        """returns False when the end is not reached"""
        for s in stmts:
            if not self.stmt(s, env):
                return False
        return True

    def merge(self, env, parts):
        parts = [p for p in parts if p is not None]
        if not parts:
            return False
        keys = set()
        for p in parts:
            keys |= set(p)
        new = {}
        for k in keys:
            v = None
            for p in parts:
                if k in p:
                    v = join(v, p[k])
            new[k] = v
        env.clear()
        env.update(new)
        return True

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
            return True
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
            return True
        if isinstance(s, ast.AugAssign):
            self.aug(s, env)
            return True
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else NO
            self.ret = join(self.ret, v)
            return False
        if isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
            if isinstance(s, ast.Raise):
                return False
            return False
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return True
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.narrow(s.test, a, b)
            ra = self.block(s.body, a)
            rb = self.block(s.orelse, b)
            return self.merge(env, [a if ra else None, b if rb else None]) or False
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            for _ in range(2):
                e = dict(env)
                self.assign(s.target, self.element(it), e, s)
                self.block(s.body, e)
                self.merge(env, [dict(env), e])
            self.block(s.orelse, env)
            return True
        if isinstance(s, ast.While):
            self.ev(s.test, env)
            for _ in range(2):
                e = dict(env)
                self.block(s.body, e)
                self.merge(env, [dict(env), e])
            self.block(s.orelse, env)
            return True
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, Q, env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            start = dict(env)
            e = dict(env)
            r = self.block(s.body, e)
            if r:
                r = self.block(s.orelse, e)
            parts = [e if r else None]
            for h in s.handlers:
                eh = dict(start)
                self.merge(eh, [dict(start), dict(e)])
                if h.name:
                    eh[h.name] = NO
                parts.append(eh if self.block(h.body, eh) else None)
            ok = self.merge(env, parts)
            self.block(s.finalbody, env)
            return bool(ok)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            env[s.name] = V('N', False)
            if isinstance(s, ast.FunctionDef):
                g = self.f.nested.get(s.name)
                if g is not None:
                    env[s.name] = V('N', False, tag=('func', g))
            return True
        if isinstance(s, ast.Assert):
            self.ev(s.test, env)
            return True
        return True

    def narrow(self, t, a, b):
        """after a test of the element type the type is no longer the caller's choice"""
        for n in ast.walk(t):
            name = None
            if isinstance(n, ast.Attribute) and n.attr in ('dtype', 'kind'):
                name = n.value
                while isinstance(name, ast.Attribute):
                    name = name.value
            elif isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass') or isinstance(n.func, ast.Attribute) and n.func.attr in ('issubdtype', 'isrealobj', 'iscomplexobj', 'isreal', 'can_cast')):
                name = n.args[0] if n.args else None
            if isinstance(name, ast.Name) and name.id in a and 'I' in a[name.id].k:
                for e in (a, b):
                    e[name.id] = V('?', e[name.id].arr)

    def element(self, v):
        if v.items is not None:
            r = None
            for i in v.items:
                r = join(r, i)
            return r or Q
        if v.tag and v.tag[0] == 'elem':
            return v.tag[1]
        return V(v.k, None, roots=v.roots)

    def store(self, base, name, v, node, what):
        """v is written into the storage base"""
        if base.arr is not True:
            return
        self.K.stores += 1
        if ('I' in base.k or 'i' in base.k) and 'F' in v.k:
            src = 'takes its element type from the input' if 'I' in base.k else 'holds integers'
            self.bad('inherited-type' if 'I' in base.k else 'integer-storage', node, name, '%s: real values are written into %s, which %s' % (what, name, src))
        elif base.tag != ('param',) and 'I' in base.k and 'I' in v.k and base.roots is not None and v.roots is not None and v.roots - base.roots:
            self.bad('inherited-type', node, name, '%s: %s keeps the element type of %s although values of %s are written into it' % (what, name, ', '.join(sorted(base.roots)), ', '.join(sorted(v.roots - base.roots))))
        elif '?' in v.k or '?' in base.k:
            self.K.unk_stores += 1

    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            its = v.items if v.items is not None and len(v.items) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts) else None
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, its[i] if its else V(v.k if v.items is None else UNK, None), env, s)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                return
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.store(b, ast.unparse(t.value), v, s, '`%s`' % ast.unparse(s)[:80].split('\n')[0])
            self.grow(t.value, b, v, env)
        elif isinstance(t, ast.Attribute):
            k = self.akey(t)
            if t.attr in ('dtype', 'shape'):
                return
            if k:
                env[k] = v

    def grow(self, e, b, v, env):
        """contents after v was written into b"""
        if not isinstance(e, ast.Name) or e.id not in env:
            return
        if b.arr is not True and plain(b) and b.items is None:
            env[e.id] = V(b.k | v.k, b.arr)
        elif b.arr is True and 'W' in b.k and not v.k <= {'W', 'i'}:
            env[e.id] = V((b.k - {'W'}) | {'F'}, True)

    def akey(self, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in self.f.params:
            return e.value.id + '.' + e.attr
        return None

    def aug(self, s, env):
        v = self.ev(s.value, env)
        t = s.target
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                return
            b = self.ev(t.value, env)
            old = V(b.k, None, roots=b.roots)
        elif isinstance(t, ast.Name):
            b = env.get(t.id, Q)
            old = b
        else:
            b = env.get(self.akey(t) or '', Q)
            old = b
        r = self.binop(s.op, old, v, s, env)
        if b.arr is True:
            w = v
            if isinstance(s.op, ast.Div) and ('I' in b.k or 'i' in b.k):
                w = FL
            if isinstance(s.op, ast.Pow):
                w = r
            self.store(b, ast.unparse(t.value if isinstance(t, ast.Subscript) else t), w, s, '`%s`' % ast.unparse(s)[:80])
            self.grow(t.value if isinstance(t, ast.Subscript) else t, b, r if r.k != b.k else w, env)
            return
        if isinstance(t, ast.Name):
            env[t.id] = r
        elif self.akey(t):
            env[self.akey(t)] = r

    # -- expressions -----------------------------------------------------------------------
    def binop(self, op, a, b, node, env):
        if isinstance(op, ast.Div):
            if 'N' in a.k or 'N' in b.k:
                return Q
            return V('F', arrness(a, b))
        if isinstance(op, ast.Pow):
            r = promote(a, b)
            e = node.right if isinstance(node, ast.BinOp) else node.value
            neg = isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, int)
            if neg:
                if 'I' in a.k and a.arr is True:
                    self.bad('integer-power', node, ast.unparse(node)[:60], '`%s` fails for integer arrays: integers cannot be raised to a negative whole power' % ast.unparse(node)[:60])
                return V('F', a.arr)
            return r
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)):
            return V('i', arrness(a, b)) if not ({'N', '?'} & (a.k | b.k)) else Q
        if isinstance(op, ast.FloorDiv):
            r = promote(a, b)
            return V(frozenset('W' if x == 'F' else x for x in r.k), r.arr)
        if isinstance(op, ast.Mult) and (a.items is not None or b.items is not None):
            x = a if a.items is not None else b
            return V(promote_items(x), False)
        return promote(a, b)

    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return Q
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, (bool, int)):
            return IN
        if isinstance(v, float):
            return V('W' if v == v and abs(v) < 1e15 and v == int(v) else 'F', False)
        if isinstance(v, complex):
            return FL
        return NO

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        b = self.P.resolve_expr(self.m, e, self.f, self.shadow)
        return self.bound(b)

    def bound(self, b):
        if not b:
            return Q
        if b[0] == 'func':
            return V('N', False, tag=('func', b[1]))
        if b[0] == 'var':
            return self.setting(b[1], b[2])
        return Q

    def setting(self, mod, name):
        """module variables that only ever hold real literals"""
        m = mod if not isinstance(mod, str) else self.P.modules.get(mod)
        if m is None:
            return Q
        key = (m.name, name)
        if key not in self.K.consts:
            vals = []
            for s in ast.walk(m.tree):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    vals.append(s.value)
            self.K.consts[key] = Q if not vals or not all(self.real_literal(v) for v in vals) else self.e_Constant(vals[0], {}) if len(vals) == 1 and isinstance(vals[0], ast.Constant) else FL
        return self.K.consts[key]

    def real_literal(self, v):
        if isinstance(v, ast.Constant):
            return isinstance(v.value, float)
        if isinstance(v, ast.UnaryOp):
            return self.real_literal(v.operand)
        if isinstance(v, ast.BinOp):
            return isinstance(v.op, ast.Div) or self.real_literal(v.left) or self.real_literal(v.right)
        return False

    def e_Attribute(self, e, env):
        k = self.akey(e)
        if k and k in env:
            return env[k]
        b = self.P.resolve_expr(self.m, e, self.f, self.shadow)
        if b and b[0] in ('ext', 'ext?'):
            n = b[1].split('.')[-1]
            if b[1].startswith(('numpy.', 'math.', 'scipy.constants')) and n in ('pi', 'e', 'nan', 'inf', 'NaN', 'Inf', 'euler_gamma'):
                return FL
            return Q
        if b and b[0] not in ('ext', 'ext?'):
            return self.bound(b)
        v = self.ev(e.value, env)
        if e.attr in ('shape',):
            return V('i', False, tag=('elem', IN))
        if e.attr in ('size', 'ndim', 'itemsize', 'nbytes'):
            return IN
        if e.attr == 'dtype':
            return V('N', False, tag=('dtype', v.k))
        if e.attr in ('T', 'real', 'imag', 'flat'):
            return V(v.k, v.arr, roots=v.roots)
        return Q

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        self.ev(e.slice, env)
        if b.items is not None:
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(b.items) <= e.slice.value < len(b.items):
                return b.items[e.slice.value]
            return self.element(b)
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            return Q
        if b.tag and b.tag[0] == 'elem' and not isinstance(e.slice, ast.Slice):
            return b.tag[1]
        sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if b.arr is True and any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value in (None, Ellipsis) for x in sl):
            return V(b.k, True, roots=b.roots)
        return V(b.k, None, roots=b.roots)

    def e_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env)
        return NO

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Mod) and 'N' in a.k:
            return NO
        if isinstance(e.op, ast.Add) and 'N' in a.k and 'N' in b.k:
            return NO
        return self.binop(e.op, a, b, e, env)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return IN
        return V(v.k, v.arr, roots=v.roots)

    def e_Compare(self, e, env):
        vs = [self.ev(e.left, env)] + [self.ev(c, env) for c in e.comparators]
        return V('i', arrness(*vs))

    def e_BoolOp(self, e, env):
        r = None
        for v in e.values:
            r = join(r, self.ev(v, env))
        return r

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        a, b = dict(env), dict(env)
        self.narrow(e.test, a, b)
        return join(self.ev(e.body, a), self.ev(e.orelse, b))

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            for x in e.elts:
                self.ev(x, env)
            return V('?', False)
        its = [self.ev(x, env) for x in e.elts]
        k = frozenset()
        for i in its:
            k |= i.k
        return V(k or 'i', False, its)
    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_JoinedStr(self, e, env):
        return NO

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, e)
        return v

    def comp(self, e, env, elts):
        sub = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, sub)
            self.assign(g.target, self.element(it), sub, e)
            for c in g.ifs:
                self.ev(c, sub)
        r = [self.ev(x, sub) for x in elts]
        return r

    def e_ListComp(self, e, env):
        v = self.comp(e, env, [e.elt])[0]
        return V(v.k, False, tag=('elem', v))
    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        self.comp(e, env, [e.key, e.value])
        return V('N', False)

    def e_Dict(self, e, env):
        for v in e.values:
            self.ev(v, env)
        return V('N', False)

    def e_Lambda(self, e, env):
        return V('N', False, tag=('lambda', LambdaRef(e, dict(env), self)))

    # -- calls -----------------------------------------------------------------------------
    def dtype(self, e, env):
        """kinds of a dtype expression"""
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            s = e.value.lower().lstrip('<>=|')
            if s.startswith(('float', 'f', 'd', 'complex', 'c')):
                return frozenset('F')
            if s.startswith(('int', 'i', 'u', 'bool', 'b', '?')):
                return frozenset('i')
            return UNK
        if isinstance(e, ast.Constant) and e.value is None:
            return None
        if isinstance(e, ast.Name):
            if e.id in env:
                v = env[e.id]
                return v.tag[1] if v.tag and v.tag[0] == 'dtype' else UNK
            if e.id in ('float', 'complex'):
                return frozenset('F')
            if e.id in ('int', 'bool'):
                return frozenset('i')
            return UNK
        if isinstance(e, ast.IfExp):
            a, b = self.dtype(e.body, env), self.dtype(e.orelse, env)
            return (a or UNK) | (b or UNK)
        if isinstance(e, ast.Attribute):
            b = self.P.resolve_expr(self.m, e, self.f, self.shadow)
            if b and b[0] in ('ext', 'ext?'):
                n = b[1].split('.')[-1]
                if n.startswith(('float', 'complex', 'double', 'single', 'cdouble')):
                    return frozenset('F')
                if n.startswith(('int', 'uint', 'bool', 'long', 'short')):
                    return frozenset('i')
                return UNK
            v = self.ev(e, env)
            return v.tag[1] if v.tag and v.tag[0] == 'dtype' else UNK
        v = self.ev(e, env)
        return v.tag[1] if v.tag and v.tag[0] == 'dtype' else UNK

    def cast(self, v, ks, node, what):
        """the value converted to a dtype of kinds ks"""
        if ks is None:
            return v
        if 'I' in ks and 'F' in v.k:
            self.bad('inherited-type', node, ast.unparse(node)[:60], '%s: real values are converted to the element type of the input' % what)
        ks = frozenset(('W' if k == 'F' and v.k <= {'i', 'W'} else k) for k in ks)
        return V(ks, v.arr)

    def e_Call(self, e, env):
        pos = [self.ev(a, env) for a in e.args]
        kw = {k.arg: k.value for k in e.keywords if k.arg}
        kv = {k: self.ev(v, env) for k, v in kw.items()}
        for k in e.keywords:
            if k.arg is None:
                self.ev(k.value, env)
        star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
        fe = e.func
        if isinstance(fe, ast.Name) and fe.id in env:
            v = env[fe.id]
            return self.callee(v, pos, kv, star, e, env)
        b = self.P.resolve_expr(self.m, fe, self.f, self.shadow)
        if b and b[0] in ('ext', 'ext?'):
            return self.ext(b[1], e, pos, kw, kv, env)
        if b and b[0] == 'func':
            return self.repo(b[1], pos, kv, star, e)
        if b and b[0] == 'class':
            return V('N', False)
        if isinstance(fe, ast.Name):
            return self.builtin(fe.id, e, pos, kv, env)
        if isinstance(fe, ast.Attribute):
            if isinstance(fe.value, ast.Name) and fe.value.id in ('self', 'cls') and self.f.cls is not None:
                g = self.P.find_method(self.f.cls, fe.attr)
                if g is not None:
                    return self.repo(g, pos, kv, star, e, bound=True)
            v = self.ev(fe.value, env)
            return self.method(v, fe, e, pos, kw, kv, env)
        return self.callee(self.ev(fe, env), pos, kv, star, e, env)

    def callee(self, v, pos, kv, star, e, env):
        if v.tag and v.tag[0] == 'func':
            return self.repo(v.tag[1], pos, kv, star, e, outer=env)
        if v.tag and v.tag[0] == 'lambda':
            ref = v.tag[1]
            sub = dict(ref.env)
            for n, x in zip([a.arg for a in ref.node.args.args], pos):
                sub[n] = x
            for a in ref.node.args.args[len(pos):]:
                sub[a.arg] = kv.get(a.arg, Q)
            return ref.frame.ev(ref.node.body, sub)
        if v.tag and v.tag[0] == 'interp':
            return V('F', True)
        if v.tag == ('param',) and pos:
            return V('F', None)     # a function the caller passed may return any real value
        return Q

    def repo(self, g, pos, kv, star, e, bound=False, outer=None):
        if star or isinstance(g.node, ast.Lambda):
            return Q
        ps = [p for p in g.params]
        args = list(g.pos)
        env = self.K.param_values(g)
        for p in g.params:
            if p in ('self', 'cls'):
                continue
            d = g.defaults.get(p)
            if d is not None:
                env[p] = self.default(d)
        off = 1 if args and args[0] in ('self', 'cls') and (bound or g.cls is not None) else 0
        for p, v in zip(args[off:], pos):
            env[p] = v
        for k, v in kv.items():
            if k in env:
                env[k] = v
        if g.parent is not None and outer is not None:
            full = {k: v for k, v in outer.items() if k not in env}
            env = {**full, **env}
        return self.K.function(g, env)

    def default(self, d):
        if isinstance(d, ast.Constant):
            return self.e_Constant(d, {})
        if isinstance(d, ast.UnaryOp):
            return self.default(d.operand)
        return Q

    def builtin(self, n, e, pos, kv, env):
        a = pos[0] if pos else None
        if n in ('float', 'complex'):
            return V('W' if a is not None and a.k <= {'i', 'W'} else '?' if a is not None and '?' in a.k else 'F', False)
        if n in ('int', 'len', 'hash', 'id', 'ord'):
            return IN
        if n == 'round' and a is not None:
            return V(a.k, a.arr) if len(pos) > 1 or kv else V(frozenset('W' if k == 'F' else k for k in a.k), a.arr)
        if n == 'abs' and a is not None:
            return V(a.k, a.arr)
        if n in ('sum', 'max', 'min', 'sorted', 'list', 'tuple', 'set', 'reversed') and a is not None:
            if n in ('max', 'min') and len(pos) > 1:
                r = None
                for p in pos:
                    r = join(r, p)
                return r
            el = self.element(a)
            if n in ('sum', 'max', 'min'):
                return V(el.k, None)
            if n in ('list', 'tuple') and a.items is not None:
                return a
            return V(el.k, False, tag=('elem', el))
        if n == 'range':
            return V('i', False, tag=('elem', IN))
        if n == 'enumerate' and a is not None:
            return V('?', False, tag=('elem', V('?', False, [IN, self.element(a)])))
        if n == 'zip':
            return V('?', False, tag=('elem', V('?', False, [self.element(p) for p in pos])))
        if n in ('bool', 'isinstance', 'hasattr', 'callable', 'any', 'all'):
            return IN
        if n in ('str', 'repr', 'format', 'print', 'open', 'dict', 'type'):
            return NO
        if n == 'map' and len(pos) > 1:
            r = self.callee(pos[0], [self.element(p) for p in pos[1:]], {}, False, e, env)
            return V(r.k, False, tag=('elem', r))
        return Q

    def out(self, e, v, kw, env):
        if 'out' in kw:
            o = self.ev(kw['out'], env)
            self.store(o, ast.unparse(kw['out']), v, e, '`%s`' % ast.unparse(e)[:80])

    def ext(self, full, e, pos, kw, kv, env):
        n = full.split('.')[-1]
        a = pos[0] if pos else (kv.get('a') or kv.get('input') or kv.get('x') or None)
        root = full.split('.')[0]
        text = '`%s`' % ast.unparse(e)[:80]
        if root == 'numpy' or root == 'math' or root == 'cupy':
            r = self.numpy(full, n, e, pos, kw, kv, env, a, text)
            self.out(e, r, kw, env)
            return r
        if full.startswith('scipy.ndimage') and n in FILTERS:
            if a is not None and 'I' in a.k and 'output' not in kw:
                exact = False
                if n in KERNEL:
                    w = pos[1] if len(pos) > 1 else kv.get('weights')
                    exact = w is None or 'F' not in w.k
                if n in SAMPLING:
                    o = kw.get('order')
                    exact = isinstance(o, ast.Constant) and o.value == 0
                if not exact:
                    self.bad('filter-type', e, n, '%s returns values of the element type of its input, which the caller chooses' % text)
            if 'output' in kw:
                return V(self.dtype(kw['output'], env) or UNK, True)
            return V(a.k if a is not None else '?', True)
        if root == 'scipy':
            if n in INTERPS:
                return V('N', False, tag=('interp',))
            if n in FLOATFUNCS:
                if n == 'quad':
                    return V('F', False, [FL, FL])
                return V('F', None)
            if n == 'label':
                return V('i', True, [IA, IN])
            if full.startswith('scipy.fft'):
                return FA
            if n in ('maximum_filter', 'minimum_filter', 'median_filter', 'grey_erosion', 'grey_dilation', 'rank_filter') and a is not None:
                return V(a.k, True)
            if n.startswith('binary_'):
                return IA
        if full == 'copy.deepcopy' or full == 'copy.copy':
            return a if a is not None else Q
        return Q

    def numpy(self, full, n, e, pos, kw, kv, env, a, text):
        dt = self.dtype(kw.get('dtype'), env) if 'dtype' in kw else None
        if full.endswith('.at') and full.count('.') == 2 and len(pos) >= 3:       # np.add.at
            self.store(pos[0], ast.unparse(e.args[0]), pos[2], e, text)
            return NO
        if '.fft.' in full:
            if n in ('fftshift', 'ifftshift') and a is not None:
                return a
            return FA
        if '.random.' in full:
            if n in RANDF:
                return FA
            return IA if n in ('randint', 'poisson', 'binomial') else Q
        if n in LIKE and a is not None:
            if dt is None and n == 'full_like' and len(pos) > 1:
                if 'I' in a.k and 'F' in pos[1].k:
                    self.bad('inherited-type', e, n, '%s: real values are stored with the element type of the input' % text)
            return V(dt if dt is not None else a.k, True, roots=a.roots)
        if n in ('zeros', 'ones', 'empty'):
            d = dt if dt is not None else (self.dtype(e.args[1], env) if len(e.args) > 1 else None)
            return V(d if d is not None else ('F' if n == 'empty' else 'W'), True)
        if n in ('identity', 'eye'):
            return V(dt or 'W', True)
        if n == 'full':
            v = pos[1] if len(pos) > 1 else kv.get('fill_value', Q)
            d = dt if dt is not None else (self.dtype(e.args[2], env) if len(e.args) > 2 else None)
            return V(self.cast(v, d, e, text).k, True)
        if n == 'insert' and len(pos) > 2:
            if 'I' in a.k and 'F' in pos[2].k:
                self.bad('inherited-type', e, n, '%s: real values are inserted into an array of the element type of the input' % text)
            return V(a.k, True)
        if n in ('put', 'place', 'putmask', 'copyto', 'fill_diagonal') and len(pos) > 1:
            v = pos[2] if n in ('put', 'place', 'putmask') and len(pos) > 2 else pos[1]
            self.store(a, ast.unparse(e.args[0]), v, e, text)
            return NO
        if n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require') and a is not None:
            d = dt if dt is not None else (self.dtype(e.args[1], env) if len(e.args) > 1 else None)
            k = promote_items(a) if a.items is not None else a.k
            if a.tag and a.tag[0] == 'elem':
                k = self.deep(a)
            return V(self.cast(V(k, True), d, e, text).k, True, roots=a.roots if a.items is None and plain(a) else None)
        if n == 'arange':
            if dt is not None:
                return V(dt, True)
            return V(promote(*pos).k, True) if pos else Q
        if n in STACK and a is not None:
            k = promote_items(a) if a.items is not None else self.deep(a)
            return V(k, True)
        if n == 'where':
            if len(pos) == 1:
                return V('i', False, tag=('elem', IA))
            if len(pos) == 3:
                r = promote(pos[1], pos[2])
                return V(r.k, arrness(*pos))
        if n == 'meshgrid':
            return V('?', False, tag=('elem', V(promote(*pos).k, True))) if pos else Q
        if n == 'indices':
            return V(dt or 'i', True)
        if n in ('mgrid', 'ogrid'):
            return IA
        if n in ('histogram', 'histogramdd', 'histogram2d'):
            w = kv.get('weights')
            k = w.k if w is not None else frozenset('i')
            return V('?', False, [V(k | (frozenset('F') if 'density' in kw else frozenset()), True), FA] + ([FA] if n == 'histogram2d' else []))
        if n == 'bincount':
            w = kv.get('weights')
            return V('F' if w is not None and not w.k <= {'N'} else 'i', True)
        if n in ('loadtxt', 'genfromtxt'):
            return V(dt or 'F', True)
        if n in ('fromfile', 'load', 'frombuffer', 'memmap', 'fromiter'):
            return V(dt or '?', True)
        if n == 'result_type' or n == 'promote_types' or n == 'find_common_type':
            ks = [self.dtype(x, env) or (p.k) for x, p in zip(e.args, pos)]
            ks = [p.tag[1] if p.tag and p.tag[0] == 'dtype' else (k if k != UNK else p.k) for k, p in zip(ks, pos)]
            r = V(ks[0], True)
            for k in ks[1:]:
                r = promote(r, V(k, True))
            return V('N', False, tag=('dtype', r.k))
        if n == 'dtype':
            d = self.dtype(e.args[0], env) if e.args else None
            return V('N', False, tag=('dtype', d or UNK))
        if n in ('isscalar',):
            return IN
        if full.startswith('math.') and n in ('floor', 'ceil', 'trunc', 'factorial', 'gcd', 'comb'):
            return IN
        if n in WHOLE and a is not None:
            return V('W', a.arr)
        if n in FLOATS or full.startswith('math.'):
            if n in ('float64', 'float32') and a is not None:
                return V('W' if a.k <= {'i', 'W'} else 'F', a.arr)
            if dt is not None:
                return V(dt, a.arr if a is not None else None)
            if n in ('mean', 'average', 'std', 'var', 'median', 'percentile', 'quantile', 'nanmean'):
                return V('F', None)
            if n == 'gradient':
                return V('F', True)
            if n in ('linspace', 'logspace', 'geomspace'):
                return FA
            return V('F', arrness(*pos) if pos else None)
        if n in INTS:
            return V('i', None if n in ('any', 'all', 'argmin', 'argmax') else (a.arr if a is not None else None))
        if n in ('int', 'int_', 'int8', 'int16', 'uint8', 'uint32', 'uint64', 'bool_'):
            return V('i', a.arr if a is not None else None)
        if n in PROMOTE and pos:
            r = promote(*pos[:3]) if n == 'clip' else promote(*pos[:2])
            if n == 'dot':
                return V(r.k, None)
            return r
        if n in SAME and a is not None:
            k = promote_items(a) if a.items is not None else (self.deep(a) if a.tag and a.tag[0] == 'elem' else a.k)
            if n in ('rint',):
                k = frozenset('W' if x == 'F' else x for x in k)
            if n in ('round', 'around') and len(pos) < 2 and not kw:
                k = frozenset('W' if x == 'F' else x for x in k)
            if dt is not None:
                return V(self.cast(V(k, True), dt, e, text).k, True)
            if n == 'unique' and any(x.startswith('return_') for x in kw):
                return V('?', False, [V(k, True)] + [IA] * sum(x.startswith('return_') for x in kw))
            if n in SCALARIZING:
                return V(k, None)
            rt = a.roots if a.items is None and plain(a) else None
            if n in KEEPS_SCALAR:
                return V(k, a.arr, roots=rt)
            return V(k, True, roots=rt)
        return Q

    def deep(self, a):
        while a.tag and a.tag[0] == 'elem':
            a = a.tag[1]
        if a.items is not None:
            return promote_items(a)
        return a.k

    def method(self, v, fe, e, pos, kw, kv, env):
        n = fe.attr
        text = '`%s`' % ast.unparse(e)[:80]
        if n == 'astype':
            d = self.dtype(e.args[0] if e.args else kw.get('dtype'), env)
            return V(self.cast(v, d, e, text).k, True)
        if n == 'fill' and pos:
            self.store(v, ast.unparse(fe.value), pos[0], e, text)
            return NO
        if n == 'append' and isinstance(fe.value, ast.Name) and pos and fe.value.id in env:
            o = env[fe.value.id]
            if o.arr is False:
                old = None if o.items == [] else (o.tag[1] if o.tag and o.tag[0] == 'elem' else self.element(o))
                el = join(old, pos[0])
                env[fe.value.id] = V(el.k, False, tag=('elem', el))
            return NO
        if n in METHF and not v.k <= {'N'}:
            return V('F', None)
        if n in METHI:
            return V('i', None)
        if n in METHS and not v.k <= {'N'}:
            if n in ('sum', 'cumsum', 'prod') and 'dtype' in kw:
                return V(self.dtype(kw['dtype'], env) or UNK, None)
            if n == 'dot' and pos:
                return V(promote(v, pos[0]).k, None)
            if n == 'round' and not pos:
                return V(frozenset('W' if k == 'F' else k for k in v.k), v.arr)
            if n == 'clip':
                return promote(v, *pos) if pos else v
            if n in ('copy',):
                return V(v.k, True if 'N' not in v.k and v.items is None and not (v.tag and v.tag[0] == 'elem') else v.arr, v.items, None if plain(v) else v.tag, v.roots)
            return V(v.k, roots=v.roots, arr=True if n in ('flatten', 'ravel', 'reshape', 'transpose', 'swapaxes', 'repeat', 'cumsum') else None)
        if v.tag and v.tag[0] == 'interp':
            return V('F', True)
        return Q


class LambdaRef:
    def __init__(self, node, env, frame):
        self.node, self.env, self.frame = node, env, frame

    def __hash__(self):
        return id(self.node)

    def __eq__(self, o):
        return isinstance(o, LambdaRef) and self.node is o.node

    def __lt__(self, o):
        return id(self) < id(o)


def promote_items(a):
    if not a.items:
        return frozenset('i') if a.items == [] else a.k
    vs = []
    for i in a.items:
        x = i
        while x.tag and x.tag[0] == 'elem':
            x = x.tag[1]
        vs.append(V(promote_items(x) if x.items is not None else x.k))
    return promote(*vs).k
