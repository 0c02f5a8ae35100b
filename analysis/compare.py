"""Comparison of a function's value graph with that of its reference definition (specs/*.py).

Both are parsed, never run.  Equal value numbers decide the obligation.  When the numbers differ the
difference is reported as a violation only if it is one the term language interprets completely: the current
function computes with the operations of its definition (or with members of the same families, or with plain
rounding/absolute-value/selection operations) but combines them differently.  A function rewritten with
operations the definition does not use is counted as undecided and stays quiet.
"""
import glob, os, signal
from .loader import Project, AnalysisError
from .vg import *
from . import vglib, terms
from .vg import subst as vgsubst

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTROL = {'map', 'scatter', 'fold', 'foldx', 'append', 'concatall', 'sel', 'last', 'star', 'apply', 'uninit', 'lambda', 'dictof', 'dictupdate', 'sumk', 'unbound', 'strcat', 'fstr', 'fmt', 'cond:exc', 'cond:exctype'}
PLAIN = {'chunks', 'and', 'or', 'where', 'floor', 'ceil', 'trunc', 'numpy.round', 'numpy.abs', 'min2', 'max2', 'mod', 'root', 'pow', 'xor', 'not', 'pos', 'zero', 'eq', 'numpy.sign', 'inv0', 'astype'}
FAMILIES = [
    {'sum', 'numpy.median', 'numpy.max', 'numpy.min', 'numpy.var', 'numpy.std', 'numpy.prod', 'numpy.mean', 'numpy.nanmean', 'numpy.nansum', 'numpy.any', 'numpy.all', 'numpy.argmin', 'numpy.argmax',
     'numpy.nanmax', 'numpy.nanmin', 'numpy.ptp', 'numpy.percentile', 'numpy.average'},
    {'numpy.sin', 'numpy.cos', 'numpy.tan', 'numpy.arcsin', 'numpy.arccos', 'numpy.arctan', 'numpy.sinh', 'numpy.cosh', 'numpy.tanh', 'numpy.exp', 'numpy.log', 'numpy.log10', 'numpy.log2', 'numpy.expm1',
     'numpy.log1p', 'numpy.radians', 'numpy.degrees', 'numpy.sinc', 'numpy.exp2', 'numpy.arctan2'},
    {'numpy.real', 'numpy.imag', 'numpy.conj', 'numpy.abs', 'numpy.angle'},
    {'numpy.roll', 'numpy.flip', 'numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.rot90', 'numpy.transpose', 'numpy.swapaxes'},
    {'numpy.cumsum', 'numpy.cumprod', 'numpy.diff', 'numpy.gradient'},
    {'numpy.fft.fftn', 'numpy.fft.ifftn', 'numpy.fft.rfftn', 'numpy.fft.irfftn', 'numpy.fft.fft2', 'numpy.fft.ifft2', 'numpy.fft.fft', 'numpy.fft.ifft'},
    {'len', 'size', 'ndim', 'shapek', 'shape'},
    {'draw:randn', 'draw:random', 'draw:normal', 'draw:uniform', 'draw:poisson', 'draw:randint'},
    {'scipy.ndimage.maximum_filter', 'scipy.ndimage.minimum_filter', 'scipy.ndimage.median_filter', 'scipy.ndimage.uniform_filter', 'scipy.ndimage.gaussian_filter'},
    {'scipy.ndimage.binary_erosion', 'scipy.ndimage.binary_dilation', 'scipy.ndimage.binary_opening', 'scipy.ndimage.binary_closing'},
    {'method:lower', 'method:upper', 'method:strip', 'method:title'},
]
FAM = {}
for _i, _f in enumerate(FAMILIES):
    for _h in _f:
        FAM.setdefault(_h, set()).add(_i)


# operations that do not leave a general value as it is: their presence around what the definition has is a difference
CHANGES = {'numpy.sort', 'numpy.unique', 'numpy.cumsum', 'numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.roll', 'numpy.diff', 'numpy.gradient', 'numpy.sign',
           'numpy.round', 'floor', 'ceil', 'trunc', 'numpy.log', 'numpy.log10', 'numpy.exp', 'numpy.log1p', 'numpy.expm1', 'numpy.tanh', 'numpy.square', 'numpy.transpose',
           'numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.conj', 'numpy.triu', 'numpy.tril', 'numpy.argsort', 
           'scipy.ndimage.gaussian_filter', 'scipy.ndimage.median_filter', 'scipy.ndimage.uniform_filter', 'numpy.repeat', 'numpy.tile', 'numpy.swapaxes', 'numpy.rot90'}
INSERTION = {'numpy.searchsorted', 'numpy.digitize'}


def within(u, t, depth=8):
    """does u occur in t?"""
    if t.fp == u.fp:
        return True
    if not isinstance(t, T) or depth < 0:
        return False
    if t.op in ('+', '*') and t.meta and isinstance(t.meta[1], dict):
        if any(within(u, v[1] if isinstance(v, tuple) else v, depth - 1) for v in t.meta[1].values()):
            return True
    return any(within(u, v, depth - 1) for v in t.args if isinstance(v, T))


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp()


class Spec:
    """One function, its reference, the declared kinds of its parameters and the option cases to evaluate.

    types: {param: 'arr3' | 'arr' | 'float' | 'int' | 'str' | 'list' | 'func' | 'obj'}
    cases: [{param: constant, or '@kind' to declare another kind}]
    """

    def __init__(self, qual, types=None, cases=None, opaque=(), fields=False, defaults=True, limit=40, ref=None, note=None, keep_float=False):
        self.keep_float = keep_float or fields == 'disk'
        self.qual, self.types, self.cases, self.opaque = qual, types or {}, cases or [{}], opaque
        self.fields, self.defaults, self.limit, self.ref, self.note = fields, defaults, limit, ref or qual, note


def kind(s):
    if s.startswith('arr'):
        return ('arr', int(s[3:]) if s[3:] else None)
    return {'float': ('float', 0), 'int': ('int', 0)}.get(s, (s, None))


def reference_project():
    extra = {}
    for p in sorted(glob.glob(os.path.join(HERE, 'specs', '*.py'))):
        extra[os.path.basename(p)[:-3]] = open(p, encoding='utf-8').read()
    return Project(extra=extra)


def find(P, qual):
    parts = qual.split('.')
    m = P.modules.get(parts[0])
    if m is None:
        return None
    for f in m.all_funcs:
        if f.qual == qual:
            return f
    return None


def guarded(limit, fn):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(), None
    except TimeUp:
        return None, 'time limit'
    except (Undecided, TooBig) as e:
        return None, 'not evaluated: %s' % (e or type(e).__name__)
    except RecursionError:
        return None, 'recursion limit'
    except AnalysisError:
        raise
    except Exception as e:      # a construct the evaluator does not model
        return None, 'not modelled: %s: %s' % (type(e).__name__, str(e)[:80])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def evaluate(P, f, spec, case, rename=None, self_ty=None, keep_float=False):
    assume, types = {}, {}
    for p, k in spec.types.items():
        types[p] = kind(k)
    for p, v in case.items():
        if isinstance(v, str) and v.startswith('@'):
            if v == '@any':
                types.pop(p, None)
            else:
                types[p] = kind(v[1:])
        else:
            assume[p] = v
            types.pop(p, None)
    conv = {}
    for p, v in assume.items():
        conv[p] = const_value(v)
    I = Interp(P, opaque=spec.opaque)
    vglib.CURRENT[0] = I
    return I.outcome(f, assume=conv, types=types, rename=rename, fields=spec.fields, keep_float=keep_float or spec.keep_float), I


def const_value(v):
    if isinstance(v, (list, tuple)):
        return Tup('list' if isinstance(v, list) else 'tuple', [const_value(x) for x in v])
    if isinstance(v, dict):
        ks = sorted(v)
        return Tup('dict', [const_value(v[k]) for k in ks], [C(k) for k in ks])
    if isinstance(v, (T, Tup, Obj, G, Fn)):
        return v
    if isinstance(v, str) and v.startswith('$'):
        return leaf('param', v[1:])
    return C(v)


# -- difference ------------------------------------------------------------------------------------

def pairs(a, b, limit=400):
    """(path, value of a, value of b) for the cases in which two outcomes differ"""
    out = []
    seen = set()
    full = []

    def go(x, y, path):
        if len(out) >= 12:
            return
        if len(seen) > 4000:
            full.append(1)
            return
        if x.fp == y.fp or (x.fp, y.fp) in seen:
            return
        seen.add((x.fp, y.fp))
        best = None
        for v in (x, y):
            if isinstance(v, G) and (best is None or v.atom.key < best.key):
                best = v.atom
        if best is None:
            ks = None
            if isinstance(x, Tup) and isinstance(y, Tup) and x.kind == y.kind and len(x.items) == len(y.items) and [k.fp for k in x.keys or ()] == [k.fp for k in y.keys or ()]:
                ks = list(zip(x.items, y.items))
            elif isinstance(x, Obj) and isinstance(y, Obj) and x.cls is not None and set(x.fields) == set(y.fields) and (x.base.fp if x.base is not None else None) == (y.base.fp if y.base is not None else None):
                ks = [(x.fields[k], y.fields[k]) for k in sorted(x.fields)]
            elif isinstance(x, Tup) != isinstance(y, Tup):
                # a tuple that spells out the parts of the value of a call
                t, v = (x, y) if isinstance(x, Tup) else (y, x)
                if t.kind == 'tuple' and t.items and isinstance(v, T) and v.op.startswith(('repo:', 'apply')):
                    es = [vglib.index(v, C(i)) for i in range(len(t.items))]
                    if all(i.fp == e.fp for i, e in zip(t.items, es)):
                        return
                    ks = list(zip(t.items, es)) if t is x else list(zip(es, t.items))
            if ks is None or not any(isinstance(v, G) for q in ks for v in q):
                out.append((path, x, y))
                return
            for p, q in ks:
                for at, b in path:
                    p, q = cof(p, at, b), cof(q, at, b)
                go(p, q, path)
            return
        go(cof(x, best, True), cof(y, best, True), path + ((best, True),))
        go(cof(x, best, False), cof(y, best, False), path + ((best, False),))
    go(a, b, ())
    return out if out or not full else None


def atoms_of(v, acc=None):
    acc = {} if acc is None else acc
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if x.fp in seen:
            continue
        seen.add(x.fp)
        if isinstance(x, G):
            acc[x.atom.fp] = x.atom
            todo += [x.hi, x.lo]
    return acc


def handlers_of(v):
    """the 'this statement raised' conditions a value is split by"""
    acc = {}
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if x.fp in seen:
            continue
        seen.add(x.fp)
        if isinstance(x, G):
            if x.atom.kind == 'exc':
                acc[x.atom.fp] = x.atom
            todo += [x.hi, x.lo]
        elif isinstance(x, (Tup, Obj)):
            todo += children(x)
    return acc


def align_handlers(cur, ref):
    """a try block may cover a different set of statements: its one failure condition is the definition's one"""
    a, b = handlers_of(cur), handlers_of(ref)
    x, y = [k for k in a if k not in b], [k for k in b if k not in a]
    if len(x) != 1 or len(y) != 1:
        return cur
    old, new = a[x[0]], bool_of_atom(b[y[0]])
    memo = {}

    def go(v):
        r = memo.get(v.fp)
        if r is not None:
            return r
        if isinstance(v, G):
            r = ite(new if v.atom.fp == old.fp else bool_of_atom(v.atom), go(v.hi), go(v.lo))
        elif isinstance(v, Tup):
            r = Tup(v.kind, [go(i) for i in v.items], v.keys)
        elif isinstance(v, Obj):
            r = Obj(v.cls, v.base, {k: go(q) for k, q in v.fields.items()})
        else:
            r = v
        memo[v.fp] = r
        return r
    return go(cur)


def children(t):
    if isinstance(t, Tup):
        return list(t.items)
    if isinstance(t, Obj):
        return [t.fields[k] for k in sorted(t.fields)]
    if isinstance(t, G):
        return [t.hi, t.lo]
    if isinstance(t, T):
        return list(t.args)
    return []


def chain(a, b):
    """the differing subterms in corresponding positions, the smallest first"""
    out = []
    localise(a, b, 0, out)
    return out[::-1]


def localise(a, b, depth=0, out=None):
    """smallest pair of differing subterms in corresponding positions"""
    if out is not None:
        out.append((a, b))
    if depth > 60:
        return a, b
    if isinstance(a, Tup) and isinstance(b, Tup) and a.kind == b.kind and len(a.items) == len(b.items):
        d = [(x, y) for x, y in zip(a.items, b.items) if x.fp != y.fp]
        if d and (a.keys is None or [k.fp for k in a.keys] == [k.fp for k in b.keys]):
            return localise(d[0][0], d[0][1], depth + 1, out)
    if isinstance(a, Obj) and isinstance(b, Obj) and set(a.fields) == set(b.fields):
        d = [(a.fields[k], b.fields[k]) for k in sorted(a.fields) if a.fields[k].fp != b.fields[k].fp]
        if d:
            return localise(d[0][0], d[0][1], depth + 1, out)
    if isinstance(a, G) and isinstance(b, G) and a.atom.fp != b.atom.fp and {a.hi.fp, a.lo.fp} == {b.hi.fp, b.lo.fp}:
        return a, b
    if isinstance(a, G) or isinstance(b, G):
        p = pairs(a, b)
        if p and not (isinstance(p[0][1], G) or isinstance(p[0][2], G)):
            return localise(p[0][1], p[0][2], depth + 1, out)
        return a, b
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op:
        if a.op in ('+', '*'):
            da, db = a.meta[1], b.meta[1]
            xa = [v for k, v in da.items() if k not in db or db[k][0] != v[0]]
            xb = [v for k, v in db.items() if k not in da or da[k][0] != v[0]]
            if a.meta[0] == b.meta[0] and len(xa) == 1 and len(xb) == 1 and xa[0][0] == xb[0][0]:
                return localise(xa[0][1], xb[0][1], depth + 1, out)
            if len(xa) == len(xb) and len(xa) < 6:
                for co, u in xa:
                    m = [v for k, v in xb if k == co and v.op == u.op]
                    if len(m) == 1 and len([1 for k, v in xa if k == co and v.op == u.op]) == 1:
                        return localise(u, m[0], depth + 1, out)
            return a, b
        if a.op == 'fold':
            p = fold_bodies(a, b)
            return localise(p[0][0], p[0][1], depth + 1, out) if p else (a, b)
        if str(a.meta) == str(b.meta) and len(a.args) == len(b.args):
            d = [(x, y) for x, y in zip(a.args, b.args) if x.fp != y.fp]
            if len(d) >= 1:
                return localise(d[0][0], d[0][1], depth + 1, out)
    return a, b


INTERP = None


def fold_bodies(a, b):
    """what differs in one pass of two loops, with the names of the definition's loop replaced by those of the current one"""
    r, q = FoldT.get(a), FoldT.get(b)
    if not r or not q or r[0] != 'fold' or q[0] != 'fold' or r[1].fp != q[1].fp or INTERP is None:
        return None
    _, _, i1, ph1, init1, live1, sys1, k1 = r
    _, _, i2, ph2, init2, live2, sys2, k2 = q
    if len(sys1) != len(sys2) or len(sys1) > 12:
        return None
    try:
        any_ = T('col', (), H('col', 'any'))
        m1, m2 = {ph1[j].fp: any_ for j in sys1}, {ph2[j].fp: any_ for j in sys2}
        m2[i2.fp] = i1
        shape1 = {j: (init1[j].fp, vgsubst(live1[j], m1, INTERP).fp) for j in sys1} if len(sys1) > 1 else {}
        shape2 = {j: (init2[j].fp, vgsubst(live2[j], m2, INTERP).fp) for j in sys2} if len(sys1) > 1 else {}
        pair = {k1: k2}
        left1, left2 = [j for j in sys1 if j != k1], [j for j in sys2 if j != k2]
        for j in list(left1):
            q = [n for n in left2 if shape2[n] == shape1[j]]
            if len(q) == 1:
                pair[j] = q[0]
                left1.remove(j)
                left2.remove(q[0])
        if len(left1) > 1 or any(init1[j].fp != init2[n].fp for j, n in zip(left1, left2)) or init1[k1].fp != init2[k2].fp:
            return None
        pair.update(zip(left1, left2))
        m = {ph2[n].fp: ph1[j] for j, n in pair.items()}
        m[i2.fp] = i1
        out = []
        for j, n in pair.items():
            y = vgsubst(live2[n], m, INTERP)
            if y.fp != live1[j].fp:
                out.append((live1[j], y))
    except (Undecided, TooBig, ValueError, ZeroDivisionError, AttributeError, KeyError):
        return None
    return sorted(out, key=lambda p: max(p[0].ht, p[1].ht))


def only_difference(x, y, a, c):
    """do x and y differ only in that x has a where y has c?"""
    memo = {}

    def several(xs, ys):
        """two lists of (coefficient, term), in any order"""
        if len(xs) != len(ys):
            return False
        left = list(ys)
        for k, u in xs:
            m = next((q for q in left if q[0] == k and go(u, q[1])), None)
            if m is None:
                return False
            left.remove(m)
        return True

    def go(u, v):
        if u.fp == v.fp:
            return True
        k = (u.fp, v.fp)
        if k == (a.fp, c.fp):
            return True
        if k in memo:
            return memo[k]
        memo[k] = False
        if len(memo) > 4000:
            return False
        r = False
        if type(u) is type(v):
            if isinstance(u, Tup):
                r = u.kind == v.kind and len(u.items) == len(v.items) and [i.fp for i in u.keys or ()] == [i.fp for i in v.keys or ()] and all(go(p, q) for p, q in zip(u.items, v.items))
            elif isinstance(u, Obj):
                r = u.cls is v.cls and set(u.fields) == set(v.fields) and (u.base.fp if u.base is not None else None) == (v.base.fp if v.base is not None else None) and all(go(u.fields[n], v.fields[n]) for n in u.fields)
            elif isinstance(u, G):
                same = u.atom.fp == v.atom.fp or u.atom.kind == v.atom.kind and isinstance(u.atom.subj, (T, Tup)) and isinstance(v.atom.subj, (T, Tup)) and go(u.atom.subj, v.atom.subj)
                r = same and go(u.hi, v.hi) and go(u.lo, v.lo)
            elif isinstance(u, T) and u.op == v.op:
                if u.op in ('+', '*'):
                    p, q = u.meta[1], v.meta[1]
                    r = u.meta[0] == v.meta[0] and several([w for n, w in p.items() if n not in q or q[n][0] != w[0]], [w for n, w in q.items() if n not in p or p[n][0] != w[0]])
                elif u.op == 'fold':
                    b = fold_bodies(u, v)
                    r = bool(b) and all(go(p, q) for p, q in b)
                else:
                    r = bool(u.args) and str(u.meta) == str(v.meta) and len(u.args) == len(v.args) and all(go(p, q) for p, q in zip(u.args, v.args))
        memo[k] = r
        return r
    return go(x, y)


def isleaf(t):
    return isinstance(t, T) and not t.args and t.const is NOC and t.op not in ('+', '*', 'ph', 'idx', 'col', 'lambda', 'uninit')


def element(t):
    """an input, or one entry of it"""
    return isleaf(t) or isinstance(t, T) and t.op == 'index' and isleaf(t.args[0]) and isinstance(t.args[1], T) and t.args[1].op != 'slice'


def other_value(x, y):
    """is the one difference the replacement of a value by one that is certainly another?"""
    return any(replaced(x, y, a, c) for a, c in chain(x, y))


def replaced(x, y, a, c):
    if not (isinstance(a, T) and isinstance(c, T)):
        return False
    if isleaf(a) and isinstance(c, T) and c.op in SELECTS and within(a, c):
        # all of the input where the definition selects from it
        return only_difference(x, y, a, c)
    if element(a) and a.op == 'index' and c.op == 'index' and len(a.args) == len(c.args) and all(u.fp == v.fp for u, v in zip(a.args[1:], c.args[1:])) and isinstance(c.args[0], T) and c.args[0].op in SELECTS and within(a.args[0], c.args[0]):
        return only_difference(x, y, a, c)
    if element(c) and reduces(a, c):
        return only_difference(x, y, a, c)
    return False


SELECTS = {'concatall', 'sel', 'numpy.sort', 'numpy.unique', 'numpy.cumsum', 'numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.roll', 'numpy.diff', 'numpy.gradient', 'fold', 'scatter', 'store'}
REDUCTIONS = FAMILIES[0]


def reduces(a, c):
    """a is arithmetic on reductions of whole inputs (and their sizes), where c is an input or an entry of one"""
    todo, n = [a], 0
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t.fp == c.fp:
            return False
        if t.op in REDUCTIONS:
            if not (t.args and isleaf(t.args[0]) and all(isinstance(u, T) and u.const is not NOC for u in t.args[1:])):
                return False
            n += 1
        elif t.op in ('+', '*'):
            todo += [v[1] for v in t.meta[1].values()]
        elif not (t.const is not NOC or t.op in ('len', 'size') and isleaf(t.args[0])):
            return False
    return n > 0


def other_test(a, c):
    """one value or another chosen by a test that holds at other points than the definition's"""
    if not (isinstance(a, G) and isinstance(c, G)) or a.atom.kind not in ('pos', 'zero', 'eq') or c.atom.kind not in ('pos', 'zero', 'eq'):
        return False
    if not ({a.hi.fp, a.lo.fp} == {c.hi.fp, c.lo.fp} and a.hi.fp != a.lo.fp):
        return False
    s, t = a.atom.subj, c.atom.subj
    if not (isinstance(s, T) and isinstance(t, T)) or {'shape', 'shapek', 'len', 'size'} & (s.hds | t.hds):
        return False
    u, v = (affine(q.subj, q.data if q.kind == 'eq' else None) for q in (a.atom, c.atom))
    return u is not None and v is not None and u[0].fp == v[0].fp and u[1] != v[1]


def affine(s, value=None):
    """(input entry e, b) of k*(e + b), or of e - value"""
    if value is not None:
        n = as_num(value) if isinstance(value, T) else None
        return (s, -n) if n is not None and (element(s) or s.op == 'index') else None
    if element(s) or s.op == 'index':
        return s, 0
    if s.op == '+' and len(s.meta[1]) == 1:
        (k, e), = s.meta[1].values()
        if e.op == 'index' or element(e):
            return e, s.meta[0]/k
    if s.op == '*' and len(s.meta[1]) == 1:
        (p, e), = s.meta[1].values()
        if p == 1 and (e.op == 'index' or element(e)):
            return e, 0
    return None


def covered(new, ref_heads):
    """operations of the current function that the definition does not use, minus the ones that are understood"""
    bad = set()
    fams = set()
    for h in ref_heads:
        fams |= FAM.get(h, set())
    for h in new:
        if h in PLAIN:
            continue
        if FAM.get(h, set()) & fams:
            continue
        bad.add(h)
    return bad


def control(v):
    return {h for h in v.hds if h in CONTROL or h.startswith(('seqmap', 'while'))}


def judge(path, x, y, ref, ref_atoms, known=frozenset(), interp=None):
    """None when the difference is a violation, else the reason it cannot be decided"""
    global INTERP
    INTERP = interp
    refh = set(ref.hds)
    new = set(x.hds) - refh - set(known)
    bad = covered(new, refh)
    if bad and bad <= CHANGES:
        a, c = localise(x, y)
        if isinstance(a, T) and a.op in CHANGES and a.args and isinstance(a.args[0], T) and a.args[0].fp == c.fp:
            return None
    if bad and bad <= INSERTION:
        # where a value would be inserted is not the entry nearest to it
        a, c = localise(x, y)
        if isinstance(a, T) and a.op in INSERTION and isinstance(c, T) and c.op == 'numpy.argmin' and all(within(u, c) for u in a.args[:2] if isinstance(u, T)):
            return None
    if bad == {'last'}:
        # the value of the last pass where the definition adds up all of them
        a, c = localise(x, y)
        if isinstance(a, T) and a.op == 'last' and isinstance(c, T) and c.op == 'sum' and isinstance(c.args[0], T) and c.args[0].op == 'map' and [u.fp for u in c.args[0].args] == [u.fp for u in a.args]:
            return None
    if bad and bad <= {'numpy.log10', 'numpy.log', 'numpy.log2', 'numpy.exp', 'pow'}:
        # evenly spaced points where the definition has evenly spaced exponents, or the reverse
        a, c = localise(x, y)
        if isinstance(a, T) and isinstance(c, T) and {a.op, c.op} == {'pow', 'numpy.linspace'} and all(t.op != 'pow' or isinstance(t.args[1], T) and t.args[1].op == 'numpy.linspace' for t in (a, c)):
            return None
    if bad and bad <= REDUCTIONS and other_value(x, y):
        return None
    if bad and bad <= {'cond:pos', 'cond:zero', 'cond:eq'} and other_test(*localise(x, y)):
        return None
    if bad:
        return 'uses operations the definition does not: %s' % ', '.join(sorted(bad)[:4])
    for atom, val in path:
        if atom.fp in ref_atoms or atom.kind == 'truth' and isinstance(atom.subj, T) and atom.subj.op == 'param':
            continue        # a free option of the caller has both values
        b = covered({h for h in atom.hds} - refh - set(known), refh)
        b = {h for h in b if h not in ('cond:pos', 'cond:zero', 'cond:eq')}
        if b:
            return 'is split by a test the definition does not make'
    a, c = localise(x, y)
    if (x.fp == RAISE.fp) != (y.fp == RAISE.fp):
        return None
    if isinstance(a, T) and isinstance(c, T) and c.op in ('fold', 'scatter', 'store') and c.args and isinstance(c.args[0], T) and c.args[0].fp == a.fp and not control(a) - control(c):
        # the array as it was before the definition's update
        return None
    if other_value(x, y):
        return None
    if control(a) != control(c) or control(x) != control(y):
        return 'is computed with a different loop structure'
    if isinstance(a, Fn) or isinstance(c, Fn):
        return 'returns a function object'
    return None


def same_given(path, x, y, interp):
    """do two values agree once the equalities that hold on the path are used?"""
    done = []
    for atom, val in path:
        s = atom.subj
        if atom.kind != 'zero' or not val or not isinstance(s, T):
            continue
        try:
            for m in done:
                s = vgsubst(s, m, interp)
        except (Undecided, TooBig, ValueError, ZeroDivisionError, AttributeError):
            continue
        if not isinstance(s, T) or s.const is not NOC:
            continue
        if s.op == '+':
            c, d = s.meta
            ts = list(d.values())
            if len(ts) == 2 and not c and ts[0][0] == -ts[1][0]:
                a, b = sorted((t for _, t in ts), key=lambda t: (t.ht, t.fp))
                m = {b.fp: a}
            elif len(ts) == 1:
                m = {ts[0][1].fp: C(-c/ts[0][0])}
            else:
                continue
        else:
            m = {s.fp: ZERO}
        done.append(m)
        try:
            x, y = vgsubst(x, m, interp), vgsubst(y, m, interp)
        except (Undecided, TooBig, ValueError, ZeroDivisionError, AttributeError):
            continue
        if x.fp == y.fp:
            return True
    return x.fp == y.fp


def describe(path, x, y):
    a, c = localise(x, y)
    cond = ' and '.join(('%r' % (at,)) if v else 'not (%r)' % (at,) for at, v in path[-3:])
    src = getattr(a, 'src', None)
    s = 'computes %s where the definition has %s' % (show(a, 4)[:220], show(c, 4)[:220])
    if cond:
        s += ' when ' + cond[:200]
    return s, (src[0], src[1]) if src else None


def compare(P, PRef, specs, R, rule='definition', jobs=None):
    """decide every spec; the specs are spread over worker processes"""
    import multiprocessing as mp
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(specs)))
    parts = []
    if jobs == 1 or len(specs) < 4:
        parts = [one_spec(P, PRef, sp, rule) for sp in specs]
    else:
        global SHARED
        SHARED = (P, PRef, specs, rule)
        with mp.get_context('fork').Pool(jobs) as pool:
            parts = pool.map(_job, range(len(specs)), chunksize=1)
    names, helpers = set(), set()
    for ok, bad, und, fn, cons in parts:
        R.instances += ok
        for b in bad:
            R.bad(*b)
        R.undecided += und
        names |= fn
        helpers |= cons
    R.counts['functions_compared'] = R.counts.get('functions_compared', 0) + len(names)
    R.counts['helper_functions_expanded'] = R.counts.get('helper_functions_expanded', 0) + len(helpers)
    return R


SHARED = None


def _job(i):
    P, PRef, specs, rule = SHARED
    return one_spec(P, PRef, specs[i], rule)


class _Acc:
    def __init__(self):
        self.o, self.b, self.u, self.f, self.c = [], [], [], set(), set()

    def ok(self, w):
        self.o.append(w)

    def bad(self, *a):
        self.b.append(a)

    def skip(self, w, why):
        self.u.append('%s -- %s' % (w, why))


def one_spec(P, PRef, sp, rule):
    R = _Acc()
    f = find(P, sp.qual)
    g = find(PRef, sp.ref)
    if g is None:
        raise AnalysisError('reference definition %s is missing' % sp.ref)
    if f is None:
        R.skip(sp.qual, 'no such function in the current tree')
        return R.o, R.b, R.u, R.f, R.c
    R.f.add(sp.qual)
    private = f.name.startswith('_') and not f.name.startswith('__')
    rename = None
    if private and len(f.pos) == len(g.pos):
        rename = dict(zip(f.pos, g.pos))
    elif not private and set(g.params) - set(f.params):
        R.skip(sp.qual, 'parameters changed')
        return R.o, R.b, R.u, R.f, R.c
    if sp.defaults and not private:
        compare_defaults(P, PRef, f, g, R)
    for case in sp.cases:
        label = '%s%s' % (sp.qual, case_label(case))
        c1 = case
        if rename and any(k != v for k, v in rename.items()):
            inv = {v: k for k, v in rename.items()}
            c1 = {inv.get(k, k): v for k, v in case.items()}
        r, why = guarded(sp.limit, lambda: evaluate(PRef, g, sp, case))
        if r is None:
            R.skip(label, 'definition ' + why)
            continue
        ref = r[0]
        r, why = guarded(sp.limit, lambda: evaluate(P, f, sp, c1, rename))
        if r is None:
            R.skip(label, why)
            continue
        cur, I = r
        R.c |= I.consulted
        if cur.fp == ref.fp:
            R.ok(label)
            continue
        reasons = []
        hit = False
        cur = align_handlers(cur, ref)
        if cur.fp == ref.fp:
            R.ok(label)
            continue
        ra = atoms_of(ref)
        diffs = pairs(cur, ref)
        if diffs is None:
            R.skip(label, 'difference not located')
            continue
        if not diffs:
            R.ok(label)
            continue
        for path, x, y in diffs:
            if same_given(path, x, y, I):
                continue
            why = judge(path, x, y, ref, ra, known={'numpy.transpose', 'numpy.reshape', 'numpy.ravel', 'astype', 'fmt'} if sp.fields == 'disk' else frozenset(), interp=I)
            if why is None:
                msg, src = describe(path, x, y)
                line = src[1] if src and src[1] else f.node.lineno
                R.bad(rule, f.where, case_label(case) or 'all options', '%s%s %s' % (f.name, case_label(case), msg), line)
                hit = True
                break
            reasons.append(why)
        if not hit and not reasons and len(diffs) < 12:
            R.ok(label)
        elif not hit:
            other = another_case(PRef, g, sp, case, cur, ref)
            if other is not None:
                R.bad(rule, f.where, case_label(case) or 'all options', '%s%s computes what the definition computes for %s' % (f.name, case_label(case), case_label(other) or 'the other options'), f.node.lineno)
            else:
                R.skip(label, reasons[0] if reasons else 'difference not located')
    return R.o, R.b, R.u, R.f, R.c


def another_case(PRef, g, sp, case, cur, ref):
    """a case, differing from `case` in named options only, whose definition is what is computed here while the one of `case` is not"""
    for c in sp.cases:
        if c is case or set(c) != set(case) or not any(c[k] != case[k] for k in c):
            continue
        r, why = guarded(sp.limit, lambda: evaluate(PRef, g, sp, c))
        if r is not None and r[0].fp == cur.fp and r[0].fp != ref.fp:
            return c
    return None


def case_label(case):
    if not case:
        return ''
    return '[%s]' % ', '.join('%s=%s' % (k, v if not isinstance(v, (T, Tup)) else '..') for k, v in sorted(case.items()))


def compare_defaults(P, PRef, f, g, R):
    for p, d in g.defaults.items():
        if p not in f.params:
            continue
        if p not in f.defaults:
            R.bad('default', f.where, p, 'parameter %r of %s no longer has its documented default' % (p, f.name), f.node.lineno)
            continue
        a, w1 = guarded(5, lambda: default_term(P, f, p))
        b, w2 = guarded(5, lambda: default_term(PRef, g, p))
        if a is None or b is None:
            continue
        if a.fp == b.fp:
            R.ok('default %s(%s)' % (f.where, p))
        elif a.const is not NOC and b.const is not NOC:
            R.bad('default', f.where, p, 'default of %r is %s, documented as %s' % (p, show(a), show(b)), f.node.lineno)
        else:
            R.skip('default %s(%s)' % (f.where, p), 'differs in form')


def default_term(P, f, p):
    I = Interp(P)
    vglib.CURRENT[0] = I
    vglib.TYPES.clear()
    st = State({}, {('rng',): leaf('rng')}, TRUE)
    return I.default(f, p, st)


# -- module-level values ---------------------------------------------------------------------------

def module_values(P, name):
    """{variable: value} after the module body has run, in source order; functions stay symbolic"""
    import ast
    mod = P.modules[name]
    I = Interp(P)
    vglib.CURRENT[0] = I
    vglib.TYPES.clear()
    vglib._MEMO.clear()
    fr = Frame(None, mod, None)
    st = State({fr.id: {}}, {('rng',): leaf('rng')}, TRUE)
    out = {}
    P._modvars = {}
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
            if sum(1 for _ in ast.walk(s.value)) > 200:
                v = None
            else:
                v = I.ev(s.value, st, fr)
                if isinstance(v, Fn):
                    v = I.lam(v, st, fr)
            for t in s.targets:
                out[t.id] = (v, s.lineno)
                if v is not None:
                    st.heap[('g', name, t.id)] = v
        elif isinstance(s, ast.FunctionDef):
            f = mod.funcs.get(s.name)
            if f is not None and name + '.' + s.name not in I.opaque:
                out[s.name] = (Fn(func=f, node=f.node, module=mod), s.lineno)
    P._modvars = {}
    return out, I, st, fr


def compare_module(P, PRef, name, R, rule='constant'):
    """initial values of the module's variables; lambdas and functions of that name are compared as functions"""
    a, I1, s1, f1 = module_values(P, name)
    b, I2, s2, f2 = module_values(PRef, name)
    for k in sorted(b):
        vb, _ = b[k]
        if k not in a:
            if isinstance(vb, Fn):
                continue
            R.skip('%s.%s' % (name, k), 'no longer a module variable')
            continue
        va, line = a[k]
        isf = isinstance(va, Fn) or isinstance(vb, Fn)
        if isinstance(va, Fn) and isinstance(vb, Fn):
            continue
        if isf:
            va = I1.lam(va, s1, f1) if isinstance(va, Fn) else va
            vb = I2.lam(vb, s2, f2) if isinstance(vb, Fn) else vb
        if va is None or vb is None:
            if va is vb:
                R.skip('%s.%s' % (name, k), 'table')
            continue
        if va.fp == vb.fp:
            R.ok('%s.%s' % (name, k))
            continue
        why = judge((), va, vb, vb, {})
        if why is None:
            msg, src = describe((), va, vb)
            R.bad(rule, '%s.py:<module>' % name, k, '%s %s' % (k, msg), line)
        else:
            R.skip('%s.%s' % (name, k), why)
