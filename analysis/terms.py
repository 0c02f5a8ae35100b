"""Value graph terms with value numbers, and decision-diagram values for conditionals.

A term (T) carries a value number in the prime field GF(2^127-1): rational arithmetic is evaluated in the
field, so two arithmetic expressions that are equal as rational functions get one number; every other
operation is uninterpreted and its number is a hash of the operation and its operands' numbers.
Conditionals are ordered multi-terminal decision diagrams (G) over atomic conditions, so the way a program
nests or orders its tests does not change the number of the resulting value.
"""
import hashlib
from fractions import Fraction

PR = (1 << 127) - 1
_SEP = '\x1f'


def H(*parts):
    s = _SEP.join(str(p) for p in parts)
    return int.from_bytes(hashlib.blake2b(s.encode('utf-8', 'surrogatepass'), digest_size=16).digest(), 'big') % PR


class Undecided(Exception):
    pass


class TooBig(Exception):
    pass


class _NoC:
    def __repr__(self):
        return 'NOC'


NOC = _NoC()
CUR = [None, 0]          # module, line of the construct being evaluated
EMPTY = frozenset()


class T:
    __slots__ = ('op', 'args', 'fp', 'const', 'hds', 'src', 'ht', 'meta', 'phs')

    def __init__(self, op, args, fp, const=NOC, meta=None, head=None, ht=None):
        self.op, self.args, self.fp, self.const, self.meta = op, args, fp, const, meta
        h = set()
        t = 0
        phs = EMPTY
        for a in args:
            h |= a.hds
            if a.ht > t:
                t = a.ht
            if a.phs:
                phs = phs | a.phs
        if head:
            h.add(head)
        self.hds = frozenset(h)
        self.ht = t if ht is None else max(ht, t)
        self.phs = phs
        self.src = (CUR[0], CUR[1])

    def __repr__(self):
        return show(self)


def canonnum(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return Fraction(repr(x))
    if isinstance(x, Fraction):
        return x
    return None


def frac_fp(f):
    return f.numerator % PR * pow(f.denominator % PR, PR - 2, PR) % PR


def C(x):
    """constant term"""
    if isinstance(x, bool) or x is None or isinstance(x, (str, bytes)) or x is Ellipsis:
        return T('const', (), H('const', type(x).__name__, x), x)
    if isinstance(x, complex):
        if x.real == 0:
            return mul(C(x.imag), T('imag', (), H('imag')))
        return add([C(x.real), C(complex(0, x.imag))])
    f = canonnum(x)
    if f is None:
        return T('const', (), H('const', 'float', x), x)
    return T('const', (), frac_fp(f), f)


def is_const(v):
    return isinstance(v, T) and v.const is not NOC


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)


def leaf(kind, *data):
    """an opaque leaf: parameter, global, library object ..."""
    return T(kind, (), H(kind, *data), meta=data)


_uid = [0]
PHF = set()      # value numbers of all loop placeholders


def fresh():
    _uid[0] += 1
    t = T('ph', (), H('ph', _uid[0]), meta=(_uid[0],))
    t.phs = frozenset([_uid[0]])
    PHF.add(t.fp)
    return t


def as_num(t):
    """numeric Fraction of a constant term, or None"""
    if t.const is NOC:
        return None
    return canonnum(t.const) if not isinstance(t.const, (str, bytes)) and t.const is not None and t.const is not Ellipsis else None


def num_fp(t):
    n = as_num(t)
    return frac_fp(n) if n is not None else t.fp


def lin(t):
    """(constant, {fp: (coef, monomial term)})"""
    n = as_num(t)
    if n is not None:
        return n, {}
    if t.op == '+':
        return t.meta[0], dict(t.meta[1])
    c, m = mono(t)
    if c != 1:
        base = mk_mono(Fraction(1), m)
        return Fraction(0), {base.fp: (c, base)}
    return Fraction(0), {t.fp: (Fraction(1), t)}


def mono(t):
    """(coef, {fp: (exp, base)})"""
    n = as_num(t)
    if n is not None:
        return n, {}
    if t.op == '*':
        return t.meta[0], dict(t.meta[1])
    return Fraction(1), {t.fp: (Fraction(1), t)}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v[0] != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (co, b), = d.values()
        if co == 1:
            return b
        cc, m = mono(b)
        return mk_mono(cc * co, m)
    fp = frac_fp(c)
    for co, b in d.values():
        fp = (fp + frac_fp(co) * b.fp) % PR
    return T('+', tuple(b for _, b in d.values()), fp, meta=(c, d))


def base_pow_fp(b, e):
    if e.denominator == 1:
        if e.numerator >= 0:
            return pow(b.fp, e.numerator, PR)
        if b.fp == 0:
            return H('inv0')
        return pow(pow(b.fp, PR - 2, PR), -e.numerator, PR)
    r = H('root', b.fp, e.denominator)
    if e.numerator >= 0:
        return pow(r, e.numerator, PR)
    return pow(pow(r, PR - 2, PR), -e.numerator, PR)


def mk_mono(c, d):
    d = {k: v for k, v in d.items() if v[0] != 0}
    if c == 0:
        return C(0)
    if not d:
        return C(c)
    if c == 1 and len(d) == 1:
        (e, b), = d.values()
        if e == 1:
            return b
    fp = frac_fp(c)
    frac = False
    for e, b in d.values():
        fp = fp * base_pow_fp(b, e) % PR
        frac = frac or e.denominator != 1
    return T('*', tuple(b for _, b in d.values()), fp, meta=(c, d), head='root' if frac else None)


def add(ts):
    c = Fraction(0)
    d = {}
    for t in ts:
        cc, dd = lin(t)
        c += cc
        for k, (co, b) in dd.items():
            if k in d:
                d[k] = (d[k][0] + co, d[k][1])
            else:
                d[k] = (co, b)
    return mk_lin(c, d)


def neg(t):
    return mul(C(-1), t)


def sub(a, b):
    return add([a, neg(b)])


def mul(a, b):
    na, nb = as_num(a), as_num(b)
    if na is not None and b.op == '+':
        c, d = lin(b)
        return mk_lin(c * na, {k: (co * na, t) for k, (co, t) in d.items()})
    if nb is not None and a.op == '+':
        return mul(b, a)
    ca, da = mono(a)
    cb, db = mono(b)
    d = dict(da)
    for k, (e, t) in db.items():
        if k in d:
            d[k] = (d[k][0] + e, t)
        else:
            d[k] = (e, t)
    return mk_mono(ca * cb, d)


def div(a, b):
    return mul(a, power(b, C(-1)))


def power(a, e):
    n = as_num(e)
    if n is None:
        na = as_num(a)
        if na is not None and na == 1:
            return C(1)
        return T('pow', (a, e), H('pow', a.fp, e.fp), head='pow')
    an = as_num(a)
    if an is not None:
        if n.denominator == 1 and abs(n.numerator) < 400 and not (an == 0 and n < 0):
            return C(an ** n.numerator)
        if an > 0 and n.denominator <= 4 and n.denominator != 1:
            # exact roots of rationals
            r = _exact_root(an, n.denominator)
            if r is not None and abs(n.numerator) < 400:
                return C(r ** n.numerator)
        if an == 0 and n < 0:
            return T('inv0', (), H('inv0'), head='inv0')
        b = T('cnum', (), frac_fp(an), meta=(an,))
        return mk_mono(Fraction(1), {H('cnum', an): (n, b)})
    if n == 0:
        return C(1)
    c, d = mono(a)
    if n.denominator == 1:
        if c == 0:
            return a
        if a.op == '+':
            # keep the sum as one base, with the sign and content factored by the field value only
            if a.fp == 0 and n < 0:
                return T('inv0', (a,), H('inv0'), head='inv0')
            return mk_mono(Fraction(1), {a.fp: (n, a)})
        return mk_mono(c ** n.numerator, {k: (x * n, b) for k, (x, b) in d.items()})
    # fractional exponent: only through positive-safe single bases
    if len(d) == 1 and c == 1:
        (x, b), = d.values()
        if x.denominator != 1 or x.numerator % 2 == 1:
            return mk_mono(Fraction(1), {b.fp: (x * n, b)})
    return mk_mono(Fraction(1), {a.fp: (n, a)})


def _exact_root(f, k):
    def r(n):
        x = round(n ** (1.0 / k)) if n < 1 << 60 else None
        if x is None:
            return None
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** k == n:
                return y
        return None
    a, b = r(f.numerator), r(f.denominator)
    return Fraction(a, b) if a is not None and b is not None else None


def op(name, *args, meta=None, head=True):
    """uninterpreted operation; meta is hashed too"""
    fp = H('op', name, meta, *[a.fp for a in args])
    return T(name, tuple(args), fp, meta=meta, head=(name if head is True else head))


# -- decision diagrams ---------------------------------------------------------------------------

class Atom:
    """kinds: eq(subj, const) isinst(subj, typename) truth(t) pos(t) zero(t) op(t)"""
    __slots__ = ('kind', 'subj', 'data', 'fp', 'key')

    def __init__(self, kind, subj, data=None):
        self.kind, self.subj, self.data = kind, subj, data
        self.fp = H('atom', kind, subj.fp, data if not isinstance(data, T) else data.fp)
        rank = {'eq': 2, 'isinst': 1, 'truth': 3, 'pos': 4, 'zero': 5}.get(kind, 6)
        none_first = 0 if (kind == 'eq' and isinstance(data, T) and data.const is None) else 1
        self.key = (subj.fp, none_first, rank, self.fp)

    @property
    def hds(self):
        h = set(self.subj.hds)
        h.add('cond:' + self.kind)
        return h

    def __repr__(self):
        s = show(self.subj)
        if self.kind == 'eq':
            return '%s == %s' % (s, show(self.data))
        if self.kind == 'isinst':
            return 'isinstance(%s, %s)' % (s, self.data)
        if self.kind == 'pos':
            return '%s > 0' % s
        if self.kind == 'zero':
            return '%s == 0' % s
        return s


TYPES_DISJOINT = {'str', 'None', 'int', 'float', 'list', 'tuple', 'dict', 'numpy.ndarray', 'num'}


def implied(known, val, other):
    """truth value of atom `other` when atom `known` is `val`; None when not determined. Same subject only."""
    if known.fp == other.fp:
        return val
    if known.subj.fp != other.subj.fp:
        return None
    if known.kind == 'eq' and val:
        c = known.data.const
        if other.kind == 'eq':
            return False
        if other.kind == 'truth':
            if c is None:
                return False
            if isinstance(c, (bool, str)):
                return bool(c)
            n = canonnum(c) if not isinstance(c, (str, bytes)) else None
            if n is not None:
                return n != 0
        if other.kind == 'isinst':
            if c is None:
                return False
            if isinstance(c, str):
                return other.data == 'str'
    if known.kind == 'truth' and val and other.kind == 'eq':
        c = other.data.const
        if c is None or c is False or c == '' or (not isinstance(c, (str, bytes, bool)) and c is not Ellipsis and c == 0):
            return False
    if known.kind == 'truth' and not val and other.kind == 'eq':
        c = other.data.const
        if c is True or (isinstance(c, str) and c != ''):
            return False
    if known.kind == 'isinst' and val:
        if other.kind == 'eq':
            c = other.data.const
            if c is None:
                return False
            if isinstance(c, str) and known.data != 'str' and known.data in TYPES_DISJOINT:
                return False
        if other.kind == 'isinst' and known.data in TYPES_DISJOINT and other.data in TYPES_DISJOINT:
            return False
    if known.kind == 'isinst' and not val and known.data == 'str' and other.kind == 'eq' and isinstance(other.data.const, str):
        return False
    return None


class G:
    __slots__ = ('atom', 'hi', 'lo', 'fp', 'hds', 'ht', 'phs')

    def __init__(self, atom, hi, lo):
        self.atom, self.hi, self.lo = atom, hi, lo
        self.fp = H('G', atom.fp, hi.fp, lo.fp)
        self.hds = frozenset(atom.hds | hi.hds | lo.hds)
        s = atom.subj
        self.ht = max(hi.ht, lo.ht, s.ht)
        self.phs = hi.phs | lo.phs | s.phs

    const = NOC

    def __repr__(self):
        return 'if(%r, %s, %s)' % (self.atom, show(self.hi), show(self.lo))


class Tup:
    """list/tuple/dict/set display with known items (values); dict keys are constants' fps"""
    __slots__ = ('kind', 'items', 'keys', 'fp', 'hds', 'ht', 'phs')
    const = NOC

    def __init__(self, kind, items, keys=None):
        self.kind, self.items, self.keys = kind, tuple(items), keys
        self.fp = H('tup', kind, *([k.fp for k in keys] if keys is not None else []), *[i.fp for i in self.items])
        h = set()
        t = 0
        ph = EMPTY
        for i in list(self.items) + list(keys or ()):
            h |= i.hds
            t = max(t, i.ht)
            ph = ph | i.phs
        self.hds, self.ht, self.phs = frozenset(h), t, ph

    def __repr__(self):
        return show(self)


class Obj:
    """an object with known field updates on top of an unknown (base) or fresh (base None) object"""
    __slots__ = ('cls', 'base', 'fields', 'fp', 'hds', 'ht', 'phs')
    const = NOC

    def __init__(self, cls, base, fields):
        self.cls, self.base, self.fields = cls, base, fields
        ks = sorted(fields)
        self.fp = H('obj', cls.qual if cls else None, base.fp if base is not None else None, *[x for k in ks for x in (k, fields[k].fp)]) \
            if (fields or base is None) else base.fp
        h = set(base.hds) if base is not None else set()
        t = base.ht if base is not None else 0
        ph = base.phs if base is not None else EMPTY
        for k in ks:
            h |= fields[k].hds
            t = max(t, fields[k].ht)
            ph = ph | fields[k].phs
        self.hds, self.ht, self.phs = frozenset(h), t, ph


class Fn:
    """closure or bound method"""
    __slots__ = ('func', 'node', 'env', 'frame', 'bound', 'fp', 'hds', 'ht', 'phs', 'module', 'partial')
    const = NOC

    def __init__(self, func=None, node=None, env=None, frame=None, bound=None, module=None, partial=None):
        self.func, self.node, self.env, self.frame, self.bound, self.module, self.partial = func, node, env, frame, bound, module, partial
        if func is not None and env is None and bound is None and partial is None:
            self.fp = H('fnref', func.qual)
        else:
            _uid[0] += 1
            self.fp = H('fn', _uid[0])
        # a closure has no canonical form: terms containing one are comparable only by identity
        closure = func is None or env is not None
        self.hds, self.ht, self.phs = (frozenset(['closure#%d' % _uid[0]]) if closure else EMPTY), 0, EMPTY


class Raise:
    fp = H('raise')
    hds = EMPTY
    ht = 0
    phs = EMPTY
    const = NOC

    def __repr__(self):
        return 'raises'


RAISE = Raise()
UNBOUND = T('unbound', (), H('unbound'))
LIMIT = 1500


def top(v):
    return v.atom if isinstance(v, G) else None


def cof(v, atom, val):
    """v with `atom` (and what it implies for tests of the same subject) fixed"""
    if not isinstance(v, G):
        return v
    a = v.atom
    if a.subj.fp != atom.subj.fp:
        if a.key > atom.key:
            return v
        # an atom ordered before: descend
        hi, lo = cof(v.hi, atom, val), cof(v.lo, atom, val)
        return mkG(a, hi, lo)
    r = implied(atom, val, a)
    if r is True:
        return cof(v.hi, atom, val)
    if r is False:
        return cof(v.lo, atom, val)
    hi, lo = cof(v.hi, atom, val), cof(v.lo, atom, val)
    if hi is v.hi and lo is v.lo:
        return v
    return mkG(a, hi, lo)


def parity(atom, hi, lo):
    """n/2 for even n and (n-1)/2 for odd n is floor(n/2)"""
    s = atom.subj
    even = None
    if atom.kind == 'eq' and isinstance(atom.data, T) and as_num(atom.data) is not None or atom.kind in ('zero', 'truth', 'pos'):
        fl = s.args[-1] if s.op == '+' else None
        c, d = lin(s)
        fls = [(co, b) for co, b in d.values() if b.op == 'floor']
        if len(fls) == 1 and fls[0][0] in (-2, 2):
            co, b = fls[0]
            x = b.args[0]                      # n/2
            n = mul(C(2), x)
            rest = sub(s if co == -2 else neg(s), sub(n, mul(C(2), b)))
            r = as_num(rest)
            if r is not None:
                if atom.kind == 'zero':
                    even = True if r == 0 else (False if abs(r) == 1 else None)
                elif atom.kind == 'truth' and r == 0:
                    even = False
                elif atom.kind == 'eq':
                    v = as_num(atom.data) if co == -2 else -as_num(atom.data)
                    even = {0: True, 1: False}.get(v - r)
                elif atom.kind == 'pos' and r == 0 and co == -2:
                    even = False
                if even is not None:
                    e, o = (hi, lo) if even else (lo, hi)
                    if sub(sub(e, o), C(Fraction(1, 2))).fp == ZERO.fp and isinstance(x, T):
                        return add([sub(e, x), b])
    return None


def mkG(atom, hi, lo):
    if hi.fp == lo.fp:
        return hi
    if isinstance(hi, T) and isinstance(lo, T) and hi.const is NOC and lo.const is NOC and atom.subj.op == '+':
        r = parity(atom, hi, lo)
        if r is not None:
            return r
    if atom.kind == 'truth' and not isinstance(atom.subj, G) and 'scatter' in hi.hds and emptied(hi, atom.subj).fp == lo.fp:
        return hi       # looping over nothing changes nothing
    return G(atom, hi, lo)


def emptied(v, s):
    """v where element stores driven by the sequence s are left out: what it is when s is empty"""
    def one(x):
        if isinstance(x, T) and x.op == 'scatter' and isinstance(x.args[1], T) and x.args[1].op == 'map' and isinstance(x.args[1].args[0], T):
            n = x.args[1].args[0]
            if n.op == 'len' and n.args[0].fp == s.fp:
                b = x.args[0]
                return b.args[0] if isinstance(b, T) and b.op == 'seq' and isinstance(b.args[0], Tup) else b
        return x
    if isinstance(v, G):
        try:
            return apply(one, [v])
        except TooBig:
            return v
    return one(v)


def apply(fn, vals, limit=None):
    """apply a leaf function under the decision diagrams of its operands"""
    if not any(isinstance(v, G) for v in vals):
        return fn(*vals)
    memo = {}
    count = [0]
    lim = limit or LIMIT

    def go(vs):
        k = tuple(v.fp for v in vs)
        r = memo.get(k)
        if r is not None:
            return r
        best = None
        for v in vs:
            if isinstance(v, G) and (best is None or v.atom.key < best.key):
                best = v.atom
        if best is None:
            r = fn(*vs)
        else:
            count[0] += 1
            if count[0] > lim:
                raise TooBig()
            hi = go([cof(v, best, True) for v in vs])
            lo = go([cof(v, best, False) for v in vs])
            if hi.fp == lo.fp:
                r = hi
            elif top(hi) is None and top(lo) is None:
                r = mkG(best, hi, lo)
            else:
                r = order(best, hi, lo)
        memo[k] = r
        return r
    return go(list(vals))


def order(atom, hi, lo):
    """ite(atom, hi, lo) where hi/lo may have tests that sort before atom (fn introduced them)"""
    t = [x.atom for x in (hi, lo) if isinstance(x, G)]
    first = min((a for a in t), key=lambda a: a.key)
    if first.key > atom.key:
        return mkG(atom, cof(hi, atom, True), cof(lo, atom, False))
    if first.fp == atom.fp:
        return mkG(atom, cof(hi, atom, True), cof(lo, atom, False))
    imp = (implied(first, True, atom), implied(first, False, atom))
    h = order2(atom, cof(hi, first, True), cof(lo, first, True), imp[0])
    l = order2(atom, cof(hi, first, False), cof(lo, first, False), imp[1])
    return mkG(first, h, l)


def order2(atom, hi, lo, imp):
    if imp is True:
        return hi
    if imp is False:
        return lo
    if hi.fp == lo.fp:
        return hi
    if not isinstance(hi, G) and not isinstance(lo, G):
        return G(atom, hi, lo)
    return order(atom, hi, lo)


def lift(fn, *vals):
    """apply with a fallback for huge diagrams: operands are collapsed to opaque selections"""
    if not any(isinstance(v, G) for v in vals):
        return fn(*vals)
    try:
        return apply(fn, vals)
    except TooBig:
        return fn(*[collapse(v) for v in vals])


def collapse(v):
    if isinstance(v, G):
        return T('sel', (v,), v.fp)
    return v


def bool_of_atom(atom):
    return G(atom, TRUE, FALSE)


def bnot(c):
    return apply(lambda x: FALSE if x.const is True else TRUE, [c])


def opaque_cond(c):
    """a large condition as one opaque test (same number for the same condition)"""
    if not isinstance(c, G) or (c.hi is TRUE and c.lo is FALSE and not isinstance(c.atom.subj, G) and c.atom.kind == 'op'):
        return c
    return G(Atom('op', T('sel', (c,), c.fp)), TRUE, FALSE)


def gsize(v, cap=400):
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, G) and x.fp not in seen:
            seen.add(x.fp)
            if len(seen) > cap:
                return cap + 1
            todo += [x.hi, x.lo]
    return len(seen)


def _cond2(fn, a, b):
    try:
        return apply(fn, [a, b])
    except TooBig:
        if gsize(a) > gsize(b):
            a = opaque_cond(a)
        else:
            b = opaque_cond(b)
        try:
            return apply(fn, [a, b])
        except TooBig:
            return apply(fn, [opaque_cond(a), opaque_cond(b)])


def band(a, b):
    if a.const is True:
        return b
    if b.const is True:
        return a
    return _cond2(lambda x, y: TRUE if (x.const is True and y.const is True) else FALSE, a, b)


def bor(a, b):
    if a.const is False:
        return b
    if b.const is False:
        return a
    return _cond2(lambda x, y: TRUE if (x.const is True or y.const is True) else FALSE, a, b)


def ite(c, a, b):
    if a.fp == b.fp:
        return a
    if c.const is True:
        return a
    if c.const is False:
        return b
    fn = lambda x, y, z: y if x.const is True else z
    try:
        return apply(fn, [c, a, b])
    except TooBig:
        pass
    c = opaque_cond(c)
    try:
        return apply(fn, [c, a, b])
    except TooBig:
        # keep the choice, hide how the two values split further
        a, b = (collapse(a) if isinstance(a, G) else a), (collapse(b) if isinstance(b, G) else b)
        return apply(fn, [c, a, b])


def restrict(v, c):
    """v simplified under the assumption c (BDD): used to prune don't-care cases"""
    return v


def show(v, depth=6):
    if isinstance(v, G):
        if depth <= 0:
            return '...'
        return '(%s if %r else %s)' % (show(v.hi, depth - 1), v.atom, show(v.lo, depth - 1))
    if isinstance(v, Tup):
        if v.kind == 'dict':
            return '{%s}' % ', '.join('%s: %s' % (show(k, depth - 1), show(i, depth - 1)) for k, i in zip(v.keys, v.items))
        return ('(%s)' if v.kind == 'tuple' else '[%s]') % ', '.join(show(i, depth - 1) for i in v.items)
    if isinstance(v, Obj):
        return '<%s %s>' % (v.cls.name if v.cls else 'object', ', '.join('%s=%s' % (k, show(x, depth - 2)) for k, x in v.fields.items()))
    if isinstance(v, Fn):
        return '<function %s>' % (v.func.qual if v.func else 'lambda')
    if isinstance(v, Raise):
        return 'raises'
    if depth <= 0:
        return '...'
    if v.const is not NOC:
        c = v.const
        if isinstance(c, Fraction):
            return str(c.numerator) if c.denominator == 1 else repr(float(c)) if c.denominator < 10**30 and abs(c) < 10**300 else str(c)
        return repr(c)
    if v.op == 'ph':
        return '#%s' % v.meta[0]
    if v.op == '+':
        c, d = v.meta
        s = ' + '.join([(show(b, depth - 1) if co == 1 else '%s*%s' % (show(C(co)), show(b, depth - 1))) for co, b in d.values()] + ([show(C(c))] if c else []))
        return '(%s)' % s
    if v.op == '*':
        c, d = v.meta
        return '*'.join(([show(C(c))] if c != 1 else []) + [(show(b, depth - 1) if e == 1 else '%s**%s' % (show(b, depth - 1), e)) for e, b in d.values()])
    if not v.args:
        return '.'.join(str(m) for m in (v.meta or ())) or v.op
    return '%s%s(%s)' % (v.op, ('{%s}' % (v.meta,) if v.meta else ''), ', '.join(show(a, depth - 1) for a in v.args))
