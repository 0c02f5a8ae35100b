"""Algebra of library operations used by the value graph: canonical names, argument conventions, identities."""
import os
import re
from .terms import *
from fractions import Fraction

NOHEAD = {'attr', 'seq', 'obj', 'star'}
ELEMENTWISE = {'numpy.exp', 'numpy.log', 'numpy.log10', 'numpy.log2', 'numpy.sin', 'numpy.cos', 'numpy.tan', 'numpy.arcsin',
               'numpy.arccos', 'numpy.arctan', 'numpy.sinh', 'numpy.cosh', 'numpy.tanh', 'numpy.abs', 'pow', 'not', 'where',
               'pos', 'zero', 'and', 'or', 'floor', 'ceil', 'trunc', 'mod', 'numpy.radians', 'numpy.degrees', 'min2', 'max2',
               'numpy.round', 'numpy.conj', 'numpy.real', 'numpy.imag', 'numpy.sinc', 'numpy.sign', 'numpy.isnan', 'numpy.isfinite'}
ARRAY_OPS = {'full', 'numpy.stack', 'numpy.concatenate', 'arange', 'numpy.linspace', 'numpy.fft.fftn', 'numpy.atleast_1d', 'scatter'}
ITERABLE = {'map', 'scatter', 'full', 'seq', 'arange', 'numpy.linspace', 'numpy.atleast_1d', 'concatall'}
ALIASES = {
    'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'abs': 'numpy.abs', 'math.fabs': 'numpy.abs',
    'numpy.asin': 'numpy.arcsin', 'numpy.acos': 'numpy.arccos', 'numpy.atan': 'numpy.arctan', 'math.asin': 'numpy.arcsin', 'math.acos': 'numpy.arccos',
    'math.atan': 'numpy.arctan', 'math.atan2': 'numpy.arctan2', 'numpy.deg2rad': 'numpy.radians', 'numpy.rad2deg': 'numpy.degrees',
    'numpy.around': 'numpy.round', 'round': 'numpy.round', 'numpy.round_': 'numpy.round', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'numpy.product': 'numpy.prod', 'numpy.conjugate': 'numpy.conj', 'numpy.float_power': 'numpy.power', 'math.pow': 'numpy.power', 'pow': 'numpy.power',
    'scipy.fft.fftn': 'numpy.fft.fftn', 'scipy.fft.ifftn': 'numpy.fft.ifftn', 'scipy.fftpack.fftn': 'numpy.fft.fftn', 'scipy.fftpack.ifftn': 'numpy.fft.ifftn',
    'numpy.fft.fft2': 'numpy.fft.fft2', 'scipy.fftpack.fftshift': 'numpy.fft.fftshift', 'scipy.fft.fftshift': 'numpy.fft.fftshift',
    'scipy.integrate.trapezoid': 'numpy.trapezoid', 'numpy.trapz': 'numpy.trapezoid', 'scipy.integrate.trapz': 'numpy.trapezoid',
    'scipy.integrate.simps': 'scipy.integrate.simpson', 'numpy.row_stack': 'numpy.vstack',
    'numpy.alltrue': 'numpy.all', 'any': 'numpy.any', 'all': 'numpy.all', 'math.ceil': 'numpy.ceil', 'math.floor': 'numpy.floor',
    'scipy.ndimage.filters.gaussian_filter': 'scipy.ndimage.gaussian_filter',
}
for _n in ('fft', 'ifft', 'fft2', 'ifft2', 'fftn', 'ifftn', 'fftshift', 'ifftshift', 'fftfreq'):
    for _m in ('scipy.fft.', 'scipy.fftpack.'):
        ALIASES[_m + _n] = 'numpy.fft.' + _n
for _n in ('exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'sqrt', 'radians', 'degrees', 'trunc'):
    ALIASES['math.' + _n] = 'numpy.' + _n
for _n in ('exp', 'log', 'sin', 'cos', 'sqrt'):
    ALIASES['cmath.' + _n] = 'numpy.' + _n
IDENT = {'float', 'complex', 'numpy.float64', 'numpy.float_', 'numpy.double', 'numpy.complex128', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray',
         'numpy.copy', 'copy.copy', 'copy.deepcopy', 'tqdm.tqdm', 'tqdm.tqdm_notebook', 'tqdm.autonotebook.tqdm', 'tqdm.auto.tqdm', 'identity',
         'numpy.longdouble', 'iter', 'numpy.require', 'tqdm.trange', 'numpy.asfarray'}
INTT = {'int', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.intp', 'numpy.trunc', 'numpy.fix', 'math.trunc'}
# positional parameter names of library functions with optional arguments, and the defaults that may be omitted
SIG = {
    'numpy.sum': (['a', 'axis', 'dtype', 'out', 'keepdims'], 1), 'numpy.mean': (['a', 'axis', 'dtype', 'out', 'keepdims'], 1),
    'numpy.std': (['a', 'axis', 'dtype', 'out', 'ddof', 'keepdims'], 1), 'numpy.var': (['a', 'axis', 'dtype', 'out', 'ddof', 'keepdims'], 1),
    'numpy.max': (['a', 'axis', 'out', 'keepdims'], 1), 'numpy.min': (['a', 'axis', 'out', 'keepdims'], 1),
    'numpy.prod': (['a', 'axis', 'dtype', 'out', 'keepdims'], 1), 'numpy.any': (['a', 'axis'], 1), 'numpy.all': (['a', 'axis'], 1),
    'numpy.argmin': (['a', 'axis'], 1), 'numpy.argmax': (['a', 'axis'], 1), 'numpy.argsort': (['a', 'axis'], 1), 'numpy.cumsum': (['a', 'axis'], 1),
    'numpy.median': (['a', 'axis'], 1), 'numpy.nanmean': (['a', 'axis'], 1), 'numpy.nansum': (['a', 'axis'], 1), 'numpy.sort': (['a', 'axis'], 1),
    'numpy.linspace': (['start', 'stop', 'num', 'endpoint'], 2), 'numpy.logspace': (['start', 'stop', 'num', 'endpoint', 'base'], 2),
    'numpy.histogram': (['a', 'bins', 'range', 'density', 'weights'], 1), 'numpy.roll': (['a', 'shift', 'axis'], 2),
    'numpy.fft.fftn': (['a', 's', 'axes', 'norm'], 1), 'numpy.fft.ifftn': (['a', 's', 'axes', 'norm'], 1),
    'numpy.fft.fft2': (['a', 's', 'axes', 'norm'], 1), 'numpy.fft.ifft2': (['a', 's', 'axes', 'norm'], 1),
    'numpy.fft.fft': (['a', 'n', 'axis', 'norm'], 1), 'numpy.fft.ifft': (['a', 'n', 'axis', 'norm'], 1),
    'numpy.fft.fftshift': (['x', 'axes'], 1), 'numpy.fft.ifftshift': (['x', 'axes'], 1), 'numpy.fft.fftfreq': (['n', 'd'], 1),
    'numpy.fft.rfftfreq': (['n', 'd'], 1), 'numpy.fft.rfftn': (['a', 's', 'axes', 'norm'], 1), 'numpy.fft.irfftn': (['a', 's', 'axes', 'norm'], 1),
    'numpy.concatenate': (['arrays', 'axis'], 1), 'numpy.stack': (['arrays', 'axis'], 1), 'numpy.repeat': (['a', 'repeats', 'axis'], 2),
    'numpy.expand_dims': (['a', 'axis'], 2), 'numpy.squeeze': (['a', 'axis'], 1), 'numpy.swapaxes': (['a', 'axis1', 'axis2'], 3),
    'numpy.moveaxis': (['a', 'source', 'destination'], 3), 'numpy.rollaxis': (['a', 'axis', 'start'], 2), 'numpy.transpose': (['a', 'axes'], 1),
    'numpy.interp': (['x', 'xp', 'fp', 'left', 'right', 'period'], 3), 'numpy.digitize': (['x', 'bins', 'right'], 2),
    'numpy.bincount': (['x', 'weights', 'minlength'], 1), 'numpy.diff': (['a', 'n', 'axis'], 1), 'numpy.round': (['a', 'decimals'], 1),
    'numpy.take': (['a', 'indices', 'axis'], 2), 'numpy.clip': (['a', 'a_min', 'a_max'], 3), 'numpy.dot': (['a', 'b'], 2),
    'numpy.trapezoid': (['y', 'x', 'dx', 'axis'], 1), 'scipy.integrate.simpson': (['y', 'x', 'dx', 'axis'], 1),
    'numpy.pad': (['array', 'pad_width', 'mode'], 2), 'numpy.tile': (['A', 'reps'], 2), 'numpy.unique': (['ar', 'return_index', 'return_inverse', 'return_counts'], 1),
    'numpy.percentile': (['a', 'q', 'axis'], 2), 'numpy.gradient': (['f'], 1), 'numpy.histogramdd': (['sample', 'bins', 'range', 'density', 'weights'], 1),
    'numpy.histogram2d': (['x', 'y', 'bins', 'range', 'density', 'weights'], 2), 'scipy.integrate.quad': (['func', 'a', 'b', 'args'], 3),
    'scipy.interpolate.interp1d': (['x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value'], 2),
    'numpy.indices': (['dimensions', 'dtype'], 1), 'numpy.meshgrid': ([], 0), 'numpy.fromfile': (['file', 'dtype', 'count', 'sep'], 1), 'numpy.loadtxt': (['fname', 'dtype'], 1),
    'scipy.ndimage.label': (['input', 'structure', 'output'], 1), 'scipy.signal.fftconvolve': (['in1', 'in2', 'mode', 'axes'], 2),
    'scipy.ndimage.gaussian_filter': (['input', 'sigma', 'order', 'output', 'mode', 'cval', 'truncate'], 2),
    'scipy.signal.convolve': (['in1', 'in2', 'mode', 'method'], 2), 'numpy.isclose': (['a', 'b', 'rtol', 'atol'], 2), 'numpy.allclose': (['a', 'b', 'rtol', 'atol'], 2),
}
DEFAULTS = {'axis': None, 'axes': None, 'dtype': None, 'out': None, 'keepdims': False, 'ddof': 0, 'num': 50, 'endpoint': True, 'base': 10, 'bins': 10, 'density': None,
            'weights': None, 'range': None, 's': None, 'norm': None, 'd': 1, 'n': None, 'mode': None, 'copy': True, 'args': (), 'right': False, 'left': None, 'period': None,
            'minlength': 0, 'decimals': 0, 'order': None, 'endpoint_': True, 'x': None}
PER_DEFAULT = {('numpy.concatenate', 'axis'): 0, ('numpy.stack', 'axis'): 0, ('numpy.argsort', 'axis'): -1, ('numpy.sort', 'axis'): -1, ('numpy.trapezoid', 'axis'): -1,
               ('scipy.integrate.simpson', 'axis'): -1, ('numpy.diff', 'n'): 1, ('numpy.diff', 'axis'): -1, ('numpy.rollaxis', 'start'): 0, ('numpy.interp', 'right'): None,
               ('scipy.interpolate.interp1d', 'kind'): 'linear', ('scipy.interpolate.interp1d', 'axis'): -1, ('numpy.fft.fft', 'axis'): -1, ('numpy.fft.ifft', 'axis'): -1,
               ('numpy.fft.fft2', 'axes'): None, ('numpy.fft.ifft2', 'axes'): None, ('scipy.signal.fftconvolve', 'mode'): 'full', ('scipy.signal.convolve', 'mode'): 'full',
               ('scipy.ndimage.gaussian_filter', 'mode'): 'reflect', ('scipy.ndimage.gaussian_filter', 'order'): 0}
ARRAY_METHODS = {'sum', 'mean', 'std', 'var', 'max', 'min', 'prod', 'any', 'all', 'argmin', 'argmax', 'argsort', 'cumsum', 'reshape', 'ravel', 'transpose',
                 'swapaxes', 'squeeze', 'round', 'clip', 'dot', 'nonzero', 'repeat', 'take', 'conj', 'trace', 'cumprod', 'searchsorted', 'diagonal', 'ptp'}
STR_METHODS = {'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'format', 'join', 'replace', 'rstrip', 'lstrip', 'title', 'capitalize', 'zfill'}


def T_seq(v):
    return op('seq', v, head=None)


def toT(v):
    from .vg import toT as f
    return f(v)


def libconst(name):
    n = {'numpy.pi': 'pi', 'math.pi': 'pi', 'numpy.inf': 'inf', 'numpy.Inf': 'inf', 'math.inf': 'inf', 'numpy.newaxis': 'None', 'numpy.nan': 'nan', 'numpy.e': 'e', 'numpy.NaN': 'nan',
         'scipy.pi': 'pi'}.get(name)
    if n == 'None':
        return NONE
    if n:
        return leaf('num', n)
    return leaf('lib', name)


TYPES = {}       # value number -> (kind, ndim): declared types of parameters; kind arr/float/int/str/list/func/obj
SHAPE_KEEP = {'numpy.fft.fftn', 'numpy.fft.ifftn', 'numpy.fft.fft2', 'numpy.fft.ifft2', 'numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.roll', 'numpy.sort',
              'scipy.ndimage.gaussian_filter', 'numpy.cumsum', 'numpy.flip', 'numpy.cumprod', 'numpy.nan_to_num', 'numpy.random.permutation', 'scipy.ndimage.convolve',
              'scipy.signal.fftconvolve', 'scipy.signal.convolve', 'xor', 'numpy.fft.fft', 'numpy.fft.ifft', 'numpy.argsort', 'astype'}
_MEMO = {}


def infer(t):
    """(kind, ndim) as far as the construction of the value tells; kind None = unknown"""
    if isinstance(t, Tup):
        return ('list', None) if t.kind in ('list', 'tuple') else (None, None)
    if not isinstance(t, T):
        return (None, None)
    r = TYPES.get(t.fp)
    if r is not None:
        return r
    k = (t.fp, len(TYPES))
    r = _MEMO.get(k)
    if r is None:
        if len(_MEMO) > 200000:
            _MEMO.clear()
        _MEMO[k] = (None, None)
        r = _MEMO[k] = infer0(t)
    return r


def infer0(t):
    if t.const is not NOC:
        c = t.const
        return ('float', 0) if as_num(t) is not None else ('str', None) if isinstance(c, str) else (None, None)
    o = t.op
    if o in ('num', 'cnum', 'ph', 'idx', 'imag'):
        return ('float', 0) if o != 'ph' else (None, None)
    if o in ('len', 'size', 'ndim', 'shapek'):
        return ('int', 0)
    if o == 'glob' and t.meta and t.meta[0] in ('const', 'conv') and t.meta[-1] not in ('LB', 'verbose', 'hf'):
        return ('float', 0)
    if o in ('+', '*') or o in ELEMENTWISE or o == 'xor':
        ks = [infer(a) for a in t.args if isinstance(a, T)]
        if not ks:
            return (None, None)
        if any(k == 'arr' for k, n in ks):
            if all(k in ('arr', 'float', 'int') and n is not None for k, n in ks):
                return ('arr', max(n for k, n in ks))
            return ('arr', None)
        if all(k in ('float', 'int') for k, n in ks):
            return ('float', 0)
        return (None, None)
    if o in SHAPE_KEEP and t.args:
        k, n = infer(t.args[0])
        return ('arr', n) if k in ('arr', 'list') else (k, n)
    if o in ('store', 'scatter'):
        k, n = infer(t.args[0])
        return ('arr', n) if k == 'arr' else (None, None)
    if o == 'full':
        s = t.args[0]
        if s.op == 'seq' and isinstance(s.args[0], Tup):
            return ('arr', len(s.args[0].items))
        if s.op == 'shape':
            return ('arr', infer(s.args[0])[1])
        if infer(s)[0] in ('int', 'float') or s.op in ('len', 'size', 'shapek'):
            return ('arr', 1)
        return ('arr', None)
    if o in ('arange', 'numpy.linspace', 'numpy.logspace', 'numpy.ravel'):
        return ('arr', 1)
    if o == 'sum' or o in ('numpy.max', 'numpy.min', 'numpy.mean', 'numpy.var', 'numpy.std', 'numpy.median'):
        k, n = infer(t.args[0])
        if len(t.args) == 1:
            return ('float', 0)
        if k == 'arr' and n is not None and len(t.args) == 2 and as_num(t.args[1]) is not None:
            return ('arr', n - 1) if n > 1 else ('float', 0)
        return (None, None)
    if o == 'index':
        k, n = infer(t.args[0])
        if k != 'arr' or n is None:
            return (None, None)
        i = t.args[1]
        its = list(i.items) if isinstance(i, Tup) else [i]
        for x in its:
            if isinstance(x, T) and (x.op == 'slice'):
                continue
            if isinstance(x, T) and x.const is None and x.op == 'const':
                n += 1
            elif isinstance(x, T) and (scalar_index(x) or infer(x) [0] == 'int'):
                n -= 1
            elif isinstance(x, T) and len(its) == 1 and infer(x) == ('arr', n) and x.op in ('pos', 'zero', 'eq', 'not', 'and', 'or'):
                return ('arr', 1)
            else:
                return (None, None)
        return ('arr', n) if n > 0 else ('float', 0)
    if o == 'numpy.transpose' and t.args:
        return infer(t.args[0])
    if o in ARRAY_OPS:
        return ('arr', None)
    if o in ('fstr', 'strcat', 'fmt', 'method:lower', 'method:upper'):
        return ('str', None)
    if o.startswith('scipy.signal.windows.'):
        return ('arr', 1)
    return (None, None)


def ndim(t):
    k, n = infer(t)
    if n is not None and k in ('arr', 'float', 'int'):
        return C(n)
    return op('ndim', t)


def is_type(kind, t):
    """does a value of the declared kind belong to python type t (None: not known)"""
    if kind is None:
        return None
    if kind == 'arr':
        return t in ('numpy.ndarray', 'collections.abc.Iterable', 'collections.Iterable', 'typing.Iterable', 'collections.abc.Sized')
    if kind == 'float':
        return True if t in ('float', 'num', 'numbers.Number', 'numbers.Real') else None if t in ('int', 'numpy.float64', 'numpy.floating', 'numpy.integer') else False
    if kind == 'int':
        return True if t in ('int', 'num', 'numbers.Number', 'numbers.Real') else None if t in ('numpy.int64', 'numpy.integer') else False
    if kind == 'str':
        return t == 'str'
    if kind == 'list':
        return t in ('list', 'collections.abc.Iterable')
    if kind in ('func', 'obj'):
        return False if t in ('str', 'list', 'tuple', 'dict', 'float', 'int', 'numpy.ndarray', 'None', 'bool') else None
    return None


def never_none(t):
    if infer(t)[0] is not None:
        return True
    return t.op in ('+', '*', 'lib', 'class', 'mod', 'pos', 'zero', 'eq', 'not', 'strcat', 'fstr', 'len', 'shapek', 'full', 'arange', 'sum', 'map', 'scatter', 'seq', 'store',
                    'append', 'concatall', 'func', 'lambda') or t.op in ELEMENTWISE or t.op.startswith('numpy.')


# -- comparisons -----------------------------------------------------------------------------------

def pos(d):
    """d > 0"""
    n = as_num(d)
    if n is not None:
        return TRUE if n > 0 else FALSE
    c, m = lin(d)
    if len(m) == 1:
        (co, b), = m.values()
        if abs(co) != 1:
            d = mk_lin(c / abs(co), {b.fp: (Fraction(1) if co > 0 else Fraction(-1), b)})
    return op('pos', d)


def number_text(x):
    """a value formatted with a fixed- or scientific-point specification only"""
    return x.op == 'fstr' and x.args and isinstance(x.args[0].const, str) and re.fullmatch(r'\{(0)?:[-+ 0]?\d*\.?\d*[fFeE]\}', x.args[0].const)


def outer_product(a, b):
    """matrix product over an axis of length one is a product of broadcast operands"""
    def last_is_new(t):
        return t.op == 'index' and isinstance(t.args[1], Tup) and t.args[1].items and is_none(t.args[1].items[-1])

    def row(t):
        return t.op == 'index' and isinstance(t.args[1], Tup) and len(t.args[1].items) == 2 and is_none(t.args[1].items[0]) and infer(t.args[0])[1] == 1
    return isinstance(a, T) and isinstance(b, T) and last_is_new(a) and row(b)


def is_none(t):
    return isinstance(t, T) and t.op == 'const' and t.const is None


def matmul(a, b):
    if outer_product(a, b):
        return mul(a, b)
    return op('numpy.matmul', a, b)


def equal(a, b, isref=False):
    if a.fp == b.fp:
        return TRUE
    if a.const is not NOC and b.const is not NOC:
        na, nb = as_num(a), as_num(b)
        if na is not None and nb is not None:
            return C(na == nb)
        return C(a.const == b.const and type(a.const) == type(b.const))
    for x, y in ((a, b), (b, a)):
        if x.op == 'typeof' and y.op in ('lib', 'class'):
            if type_name(y) == 'str' and x.args[0].op in ('seq', 'map', 'arange'):
                return FALSE
            if CURRENT[0] is not None:
                return CURRENT[0].isinst(x.args[0], type_name(y))
            return op('isinst', x.args[0], meta=type_name(y))
        if y.const is not NOC and as_num(y) is None:
            kx = infer(x)[0]
            if kx is not None and (y.const is None or (isinstance(y.const, str) and kx in ('arr', 'float', 'int', 'list', 'func', 'obj'))):
                return FALSE
            if x.op == 'method:lower' and isinstance(y.const, str) and y.const != y.const.lower():
                return FALSE
            if number_text(x) and isinstance(y.const, str) and not re.fullmatch(r'[-+0-9.e]*|-?nan|-?inf', y.const):
                return FALSE
            return op('eq', x, y)
        if y.const is True or y.const is False:
            if x.op in ('pos', 'zero', 'not', 'and', 'or', 'eq'):
                return x if y.const else lnot(x)
            return op('eq', x, y)
    if a.op in ('lib', 'class', 'func') or b.op in ('lib', 'class', 'func'):
        return op('is', *sorted((a, b), key=lambda t: t.fp))
    for x, y in ((a, b), (b, a)):
        # several entries of the same size
        if x.op == 'size' and as_num(y) == 1 and isinstance(x.args[0], T) and x.args[0].op == 'seq' and isinstance(x.args[0].args[0], Tup) and len(x.args[0].args[0].items) > 1:
            return FALSE
    d = sub(a, b)
    n = as_num(d)
    if n is not None:
        return C(n == 0)
    c, m = lin(d)
    if len(m) == 1:
        (co, t), = m.values()
        if t.op in ('pos', 'zero', 'and', 'or') and boolean(t) and infer(t)[0] == 'arr' and -c / co in (0, 1):
            return t if c else lnot(t)
        return op('eq', t, C(-c / co))
    d2 = neg(d)
    return op('zero', d if d.fp < d2.fp else d2)


def lnot(t):
    if isinstance(t, G):
        return bnot(t)
    if t.const is True:
        return FALSE
    if t.const is False:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    n = as_num(t)
    if n is not None:
        return C(-n - 1)
    return op('not', t)


def compare(n, a, b):
    if n == 'Gt':
        return pos(sub(a, b))
    if n == 'Lt':
        return pos(sub(b, a))
    if n == 'GtE':
        return lnot(pos(sub(b, a)))
    if n == 'LtE':
        return lnot(pos(sub(a, b)))
    raise Undecided('comparison ' + n)


def logic(which, a, b):
    xs = []
    for t in (a, b):
        xs += list(t.args) if t.op == which else [t]
    seen = {}
    for x in xs:
        if x.const is True:
            if which == 'and':
                continue
            return TRUE
        if x.const is False:
            if which == 'or':
                continue
            return FALSE
        seen[x.fp] = x
    # a filled mask next to another mask changes nothing
    for x in list(seen.values()):
        if x.op == 'full' and x.args[-1].const is (which == 'and') and any(y.op in BOOL for y in seen.values()):
            del seen[x.fp]
    ls = [seen[k] for k in sorted(seen)]
    if not ls:
        return TRUE if which == 'and' else FALSE
    if len(ls) == 1:
        return ls[0]
    return op(which, *ls)


def type_name(v):
    if not isinstance(v, T):
        return '?'
    if v.op == 'lib':
        n = v.meta[0]
        return {'numpy.ndarray': 'numpy.ndarray', 'builtins.str': 'str', 'numpy.str_': 'numpy.str_'}.get(n, n)
    if v.op == 'class':
        return 'class:' + v.meta[0]
    if v.op == 'typeof' and v.args[0].const is None:
        return 'None'
    return show(v)


# -- arithmetic ------------------------------------------------------------------------------------

def binop(n, a, b):
    if n == 'Add':
        return add([a, b])
    if n == 'Sub':
        return sub(a, b)
    if n == 'Mult':
        if boolean(a) and boolean(b):
            return logic('and', a, b)
        return mul(a, b)
    if n == 'Div':
        return div(a, b)
    if n == 'Pow':
        return power(a, b)
    if n == 'FloorDiv':
        na, nb = as_num(a), as_num(b)
        if na is not None and nb:
            return C(na // nb)
        return floor(div(a, b))
    if n == 'Mod':
        na, nb = as_num(a), as_num(b)
        if na is not None and nb:
            return C(na % nb)
        if a.op in ('fstr', 'strcat') or isinstance(a.const, str):
            return op('fmt%', a, b)
        return sub(a, mul(b, floor(div(a, b))))
    if n == 'MatMult':
        return matmul(a, b)
    if n == 'BitAnd':
        return logic('and', a, b)
    if n == 'BitOr':
        return logic('or', a, b)
    if n == 'BitXor':
        return op('xor', *sorted((a, b), key=lambda t: t.fp))
    return op(n, a, b)


INTEGRAL = {'len', 'shapek', 'size', 'ndim', 'floor', 'ceil', 'trunc', 'numpy.argmin', 'numpy.argmax', 'numpy.round', 'ph', 'idx', 'numpy.nonzero', 'numpy.argsort', 'numpy.digitize', 'os.cpu_count'}


def integral(t):
    n = as_num(t)
    if n is not None:
        return n.denominator == 1
    if t.op == '+':
        return t.meta[0].denominator == 1 and all(co.denominator == 1 and integral(b) for co, b in t.meta[1].values())
    if t.op == '*':
        return t.meta[0].denominator == 1 and all(e.denominator == 1 and e > 0 and integral(b) for e, b in t.meta[1].values())
    if t.op == 'index':
        return integral(t.args[0])
    if infer(t)[0] == 'int':
        return True
    return t.op in INTEGRAL


def nonneg_int(t):
    """a non-negative integer quantity (counts)"""
    if t.op in ('len', 'shapek', 'size', 'ndim'):
        return True
    n = as_num(t)
    return n is not None and n >= 0


def floor(t):
    n = as_num(t)
    if n is not None:
        return C(n.numerator // n.denominator)
    if integral(t):
        return t
    if t.op == '+':
        c, d = t.meta
        ci = Fraction(c.numerator // c.denominator)
        whole = [mul(C(co), b) for co, b in d.values() if integral(mul(C(co), b))]
        if ci or whole:
            w = add([C(ci)] + whole)
            return add([w, op('floor', sub(t, w))])
    r = ratio(t)
    if r is not None and r[2] < 0:
        return neg(op('floor', mul(add([r[0], r[1], C(-1)]), power(r[1], C(-1)))))
    return op('floor', t)


def ratio(t):
    """(numerator, denominator, sign) of a quotient of two whole quantities, the denominator taken as a count (positive)"""
    c, m = mono(t)
    if c.denominator != 1:
        return None
    num, den = [C(abs(c))], []
    for e, b in m.values():
        if e.denominator != 1 or not integral(b):
            return None
        (num if e > 0 else den).append(power(b, C(abs(e))))
    if len(den) != 1 or as_num(den[0]) is not None and as_num(den[0]) <= 0:
        return None
    n = num[0]
    for x in num[1:]:
        n = mul(n, x)
    return n, den[0], 1 if c > 0 else -1


def ceil(t):
    n = as_num(t)
    if n is not None:
        return C(-((-n.numerator) // n.denominator))
    if integral(t):
        return t
    r = ratio(t)
    if r is not None:
        return floor(mul(add([r[0], r[1], C(-1)]), power(r[1], C(-1)))) if r[2] > 0 else neg(floor(mul(r[0], power(r[1], C(-1)))))
    return op('ceil', t)


def trunc(t):
    n = as_num(t)
    if n is not None:
        return C(int(n))
    if t.const is True or t.const is False:
        return C(int(t.const))
    if integral(t):
        return t
    c, m = mono(t)
    if c > 0 and all(nonneg_int(b) for _, b in m.values()):
        return op('floor', t)
    return op('trunc', t)


def vectorise(count, idx, body):
    """map over an index of element-wise arithmetic on x[i] is the arithmetic on x; None when not of that form"""
    if not isinstance(body, T):
        return None
    me = idx.phs
    if not (body.phs & me):
        return op('full', count, body) if body.op not in ('seq', 'obj') else None
    ok = [True]
    memo = {}

    def go(t):
        if not ok[0]:
            return t
        if not (t.phs & me):
            if t.op in ('ph',) or t.op not in ELEMENTWISE:
                pass
            return t
        r = memo.get(t.fp)
        if r is not None:
            return r
        if t.fp == idx.fp:
            r = op('arange', ZERO, count, ONE)
        elif t.op == 'index' and not (t.args[0].phs & me) and t.args[1].fp == idx.fp:
            x = t.args[0]
            n = length(x)
            if n.fp != count.fp:
                ok[0] = False
                return t
            r = x
        elif t.op == 'index' and isinstance(t.args[1], T) and not (t.args[0].phs & me) and sub(t.args[1], idx).const is not NOC and False:
            r = t
        elif t.op == '+':
            c, d = t.meta
            r = add([C(c)] + [mul(C(co), go(b)) for co, b in d.values()])
        elif t.op == '*':
            c, d = t.meta
            r = C(c)
            for e, b in d.values():
                r = mul(r, power(go(b), C(e)))
        elif t.op in ELEMENTWISE and all(isinstance(a, T) for a in t.args):
            r = remake(None, t, [go(a) for a in t.args])
            if isinstance(r, G):
                ok[0] = False
                return t
        else:
            ok[0] = False
            return t
        memo[t.fp] = r
        return r
    r = go(body)
    return r if ok[0] else None


# -- shapes ----------------------------------------------------------------------------------------

def length(t):
    if isinstance(t, Tup):
        return C(len(t.items))
    if t.op == 'seq' and isinstance(t.args[0], Tup):
        return C(len(t.args[0].items))
    if t.op in ('map', 'last'):
        return t.args[0]
    if t.op == 'arange':
        a, b, s = t.args
        if as_num(s) == 1:
            return sub(b, a)
        return ceil(div(sub(b, a), s))
    if t.op == 'numpy.linspace':
        m = t.meta or ()
        for k, a in zip(m, t.args[len(t.args) - len(m):]):
            if k == 'num':
                return a
        if len(t.args) - len(m) > 2:
            return t.args[2]
        return C(50)
    if t.op == 'full':
        s = t.args[0]
        if s.op == 'seq' and isinstance(s.args[0], Tup) and s.args[0].items:
            return toT(s.args[0].items[0])
        if s.op == 'shape':
            return length(s.args[0])
        return s
    if t.op == 'numpy.atleast_1d':
        return op('len', t)
    if t.op == 'scatter' or t.op == 'store':
        return length(t.args[0]) if isinstance(t.args[0], T) else op('len', t)
    r = slice_length(t)
    if r is not None:
        return r
    if t.op in ('+', '*') or t.op in ELEMENTWISE:
        # elementwise arithmetic on one array and scalars keeps the length when a single candidate exists
        cands = {}
        for a in t.args:
            if isinstance(a, T) and (a.op in ('map', 'arange', 'numpy.linspace', 'numpy.atleast_1d', 'seq') or slice_length(a) is not None) or (isinstance(a, T) and (a.op in ('+', '*') or a.op in ELEMENTWISE)):
                l = length(a)
                if not (l.op == 'len' and l.args[0].fp == a.fp) or a.op == 'numpy.atleast_1d':
                    cands[l.fp] = l
        if len(cands) == 1:
            return list(cands.values())[0]
    if t.op == 'shape':
        return ndim(t.args[0])
    if t.op in ('numpy.log10', 'numpy.exp'):
        return length(t.args[0])
    if isinstance(t.const, str):
        return C(len(t.const))
    q, k = (t.args[0], -1) if t.op == 'numpy.transpose' and len(t.args) == 1 else (t, 0)
    if isinstance(q, T) and q.op == 'numpy.reshape' and len(q.args) >= 2:
        s = q.args[1]
        v = s.args[0] if isinstance(s, T) and s.op == 'seq' else s
        v = toT(v.items[k]) if isinstance(v, Tup) and v.items else None
        if v is not None and as_num(v) != -1:
            return v
    if t.op == 'numpy.ravel' and len(t.args) == 1:
        return size(t.args[0])
    b = shape_base(t)
    if b is not t:
        return length(b)
    if masked(t) and infer(t.args[0]) == ('arr', 1):
        return np_sum(t.args[1])
    if interpolated(t):
        return length(t.args[1])
    if t.op == 'numpy.column_stack':
        v = t.args[0]
        if v.op == 'seq' and isinstance(v.args[0], Tup) and v.args[0].items:
            return length(toT(v.args[0].items[0]))
    return op('len', t)


def slice_length(t):
    """number of entries of v[1:] and v[:-1] for a v that has at least one entry"""
    if t.op != 'index' or len(t.args) != 2 or not isinstance(t.args[1], T) or t.args[1].op != 'slice' or len(t.args[1].args) != 3:
        return None
    lo, hi, st = t.args[1].args
    if st.const is not None or not isinstance(t.args[0], T):
        return None
    if (as_num(lo) == 1 and hi.const is None) or (lo.const is None and as_num(hi) == -1):
        return sub(length(t.args[0]), ONE)
    return None


def set_difference(a, b):
    """setdiff1d of written-out integers"""
    def consts(v):
        v = v.args[0] if isinstance(v, T) and v.op == 'seq' else v
        items = v.items if isinstance(v, Tup) and v.kind in ('list', 'tuple') else [v]
        ns = [as_num(toT(i)) if isinstance(i, (T, Tup)) else None for i in items]
        return None if any(n is None for n in ns) else ns
    x, y = consts(a), consts(b)
    if x is None or y is None:
        return None
    return Tup('list', [C(n) for n in sorted(set(x) - set(y))])


def shape_base(t):
    """the operand whose shape the value has"""
    while isinstance(t, T):
        if t.op in SHAPE_KEEP and t.args and t.op not in ('scipy.signal.fftconvolve', 'scipy.signal.convolve', 'xor') and isinstance(t.args[0], T):
            t = t.args[0]
            continue
        if t.op in ('+', '*') or (t.op in ELEMENTWISE and t.op != 'where'):
            arrs = []
            bad = False
            for a in t.args:
                k, n = infer(a)
                if k == 'arr':
                    arrs.append(a)
                elif k not in ('float', 'int'):
                    bad = True
            bases = {shape_base(a).fp: a for a in arrs}
            if len(bases) == 1 and not bad:
                t = arrs[0]
                continue
            if len(bases) > 1 and not bad:
                # the common shape of several arrays, however they are combined
                p = product([shape_base(a) for _, a in sorted(bases.items())])
                return t if p.fp == t.fp else p
            if not arrs and bad:
                odd = [a for a in t.args if infer(a)[0] not in ('float', 'int')]
                if len(odd) == 1 and isinstance(odd[0], T):
                    t = odd[0]
                    continue
        break
    return t


def shape(t):
    t = shape_base(t)
    if t.op in ('full',):
        return t.args[0] if t.args[0].op in ('seq', 'shape') else op('seq', Tup('tuple', (t.args[0],)), head=None)
    if t.op in ('store', 'scatter') and isinstance(t.args[0], T):
        return shape(t.args[0])
    return op('shape', t)


def leading(init, count):
    """is `count` the length of the fresh array init?"""
    return length(init).fp == count.fp


def shape_index(t, i):
    """t.shape[i]"""
    n = as_num(i)
    t = shape_base(t)
    if n is not None and n < 0:
        nd = infer(t)[1]
        if nd is not None and nd + n >= 0:
            n = nd + n
            i = C(n)
    if n is not None and (t.fp, int(n)) in DIMS:
        return DIMS[t.fp, int(n)]
    if n == 0:
        return length(t)
    if t.op == 'full' and t.args[0].op == 'seq' and isinstance(t.args[0].args[0], Tup) and n is not None and n < len(t.args[0].args[0].items):
        return toT(t.args[0].args[0].items[int(n)])
    if t.op == 'full' and t.args[0].op == 'shape':
        return shape_index(t.args[0].args[0], i)
    return op('shapek', t, i)


def size(t):
    t = shape_base(t)
    if infer(t)[0] in ('float', 'int'):
        return ONE
    if t.op == 'seq' and isinstance(t.args[0], Tup) and t.args[0].items and all(isinstance(i, T) and infer(i)[0] in ('float', 'int') for i in t.args[0].items):
        return C(len(t.args[0].items))
    if t.op in ('numpy.ravel', 'numpy.transpose') and len(t.args) == 1:
        return size(t.args[0])
    if t.op == 'full' and t.args[0].op == 'shape':
        return size(t.args[0].args[0])
    if masked(t):
        return np_sum(t.args[1])
    if infer(t) == ('arr', 1) or infer(t)[0] == 'list' or interpolated(t):
        return length(t)
    return op('size', t)


def interpolated(t):
    """values of a grid interpolation at a table of points: one per row"""
    return t.op == 'apply' and len(t.args) == 2 and isinstance(t.args[0], T) and t.args[0].op == 'scipy.interpolate.RegularGridInterpolator'


BOOL = ('pos', 'zero', 'eq', 'not', 'and', 'or')


def boolean(t):
    if isinstance(t, T) and t.op == 'full':
        return t.args[-1].const is True or t.args[-1].const is False
    return isinstance(t, T) and t.op in BOOL and (t.op not in ('not', 'and', 'or') or all(boolean(a) for a in t.args))


def elementwise_in(x, t):
    """does t combine x with other values element by element?"""
    if x.fp == t.fp:
        return True
    if x.op in ('+', '*') and x.args and all(isinstance(a, T) and (infer(a)[0] in ('float', 'int') or elementwise_in(a, t)) for a in x.args):
        return True
    return isinstance(t, T) and (t.op in ('+', '*', 'eq') or t.op in ELEMENTWISE) and any(isinstance(a, T) and elementwise_in(x, a) for a in t.args)


def masked(t):
    """a[m] with a boolean array m that has the shape of a: its size is the number of true elements"""
    return t.op == 'index' and isinstance(t.args[0], T) and boolean(t.args[1]) and elementwise_in(t.args[0], t.args[1])


# -- indexing --------------------------------------------------------------------------------------

def mkslice(a, b, c):
    a, b, c = toT(a), toT(b), toT(c)
    if as_num(a) == 0 and (c.const is None or (as_num(c) is not None and as_num(c) > 0)):
        a = NONE
    if as_num(c) == 1:
        c = NONE
    return op('slice', a, b, c, head=None)


def full_slice(t):
    return isinstance(t, T) and t.op == 'slice' and all(x.const is None for x in t.args)


def scalar_index(t):
    return isinstance(t, T) and (as_num(t) is not None and t.const is not True and t.const is not False or t.op in ('idx', 'ph') or (t.op == '+' and all(b.op in ('idx', 'ph') for b in t.args)))


def canon_index(i):
    if isinstance(i, Tup):
        it = list(i.items)
        while len(it) > 1 and (full_slice(it[-1]) or (isinstance(it[-1], T) and it[-1].const is Ellipsis)) and not any(isinstance(x, T) and x.const is None and x.op == 'const' for x in it) \
                and not any(isinstance(x, T) and x.const is Ellipsis for x in it[:-1]):
            it.pop()
        if len(it) == 1:
            return it[0]
        return Tup('tuple', it)
    if isinstance(i, T) and i.op == 'seq' and isinstance(i.args[0], Tup) and i.args[0].kind == 'tuple':
        return canon_index(i.args[0])
    return i


def index(x, i):
    from .vg import subst
    i = canon_index(i)
    if isinstance(i, (Obj, Fn)):
        i = toT(i)
    if isinstance(i, G):
        i = collapse(i)
    if isinstance(x, Tup):
        x = T_seq(x)
    if full_slice(i) or (isinstance(i, T) and i.const is Ellipsis):
        return x
    if isinstance(x.const, str) and isinstance(i, T):
        if i.op == 'slice' and all(a.const is None or as_num(a) is not None for a in i.args):
            return C(x.const[slice(*[None if a.const is None else int(as_num(a)) for a in i.args])])
        if as_num(i) is not None and -len(x.const) <= as_num(i) < len(x.const):
            return C(x.const[int(as_num(i))])
    if x.op == 'shape' and isinstance(i, T) and i.op == 'slice' and infer(x.args[0])[1] and all(a.const is None or as_num(a) is not None for a in i.args):
        its = [shape_index(x.args[0], C(k)) for k in range(infer(x.args[0])[1])]
        return op('seq', Tup('tuple', its[slice(*[None if a.const is None else int(as_num(a)) for a in i.args])]), head=None)
    if x.op == 'shape':
        return shape_index(x.args[0], i) if isinstance(i, T) and not i.op == 'slice' else op('index', x, i)
    if x.op == 'seq' and isinstance(x.args[0], Tup) and x.args[0].kind in ('list', 'tuple') and isinstance(i, T) and as_num(i) is not None and i.const is not True and i.const is not False:
        n = int(as_num(i))
        its = x.args[0].items
        if -len(its) <= n < len(its):
            return its[n]
    if isinstance(i, T) and i.op == 'slice' and all(a.const is None or as_num(a) is not None for a in i.args):
        its, d = fileio.items_of(x)
        if its is not None and x.op != 'store':
            return op('seq', Tup('tuple', its[slice(*[None if a.const is None else int(as_num(a)) for a in i.args])]), head=None)
    if isinstance(i, T) and scalar_index(i):
        if x.op == 'map':
            h = x.meta[0]
            n = as_num(i)
            j = i if (n is None or n >= 0) else add([x.args[0], i])
            return subst(x.args[1], {H('idx', h): j}, _interp())
        if x.op == 'arange':
            n = as_num(i)
            j = i if (n is None or n >= 0) else add([length(x), i])
            return add([x.args[0], mul(j, x.args[2])])
        if x.op == 'index' and scalar_tuple(x.args[1]):
            # x[a][b] with integer a is x[a, b]
            a = x.args[1]
            items = list(a.items) if isinstance(a, Tup) else [a]
            return op('index', x.args[0], Tup('tuple', items + [i]))
        if x.op == 'full':
            s = x.args[0]
            if s.op not in ('seq', 'shape'):
                return x.args[1]
            if s.op == 'seq' and isinstance(s.args[0], Tup) and len(s.args[0].items) == 1:
                return x.args[1]
            if s.op == 'shape' and False:
                return x.args[1]
        if x.op == 'store' and isinstance(x.args[1], T):
            a, b = as_num(x.args[1]), as_num(i)
            if x.args[1].fp == i.fp:
                return x.args[2]
            if a is not None and b is not None and a >= 0 and b >= 0 and a != b:
                return index(x.args[0], i)
            if x.args[1].op in ('idx', 'ph', '+') and as_num(sub(x.args[1], i)) not in (None, 0):
                return index(x.args[0], i)
        if x.op in ('+', '*') or x.op in ELEMENTWISE:
            r = push_index(x, i)
            if r is not None:
                return r
    if isinstance(i, Tup) and x.op == 'index' and scalar_tuple(x.args[1]):
        a = x.args[1]
        items = list(a.items) if isinstance(a, Tup) else [a]
        return op('index', x.args[0], Tup('tuple', items + list(i.items)))
    if isinstance(i, T) and i.op == 'slice' and x.op == 'index' and scalar_tuple(x.args[1]):
        a = x.args[1]
        items = list(a.items) if isinstance(a, Tup) else [a]
        return op('index', x.args[0], canon_index(Tup('tuple', items + [i])))
    if x.op == 'store' and isinstance(i, (T, Tup)) and x.args[1].fp == i.fp:
        return x.args[2]
    return op('index', x, i)


def scalar_tuple(a):
    if isinstance(a, Tup):
        return a.kind == 'tuple' and all(scalar_index(x) or (isinstance(x, T) and x.op in ('idx', 'ph')) for x in a.items)
    return scalar_index(a)


KNOWN1D = {'arange', 'numpy.linspace', 'numpy.atleast_1d'}


def push_index(x, i):
    """(a op b)[i] with a known one-dimensional sequence and scalars: index the sequence"""
    lens = {}
    found = [0]
    ok = [True]

    def go(t):
        if not isinstance(t, T):
            ok[0] = False
            return t
        if t.op == 'shape':
            found[0] += 1
            lens[ndim(t.args[0]).fp] = 1
            return index(t, i)
        if t.op in ('map', 'arange'):
            lens[length(t).fp] = 1
            found[0] += 1
            return index(t, i)
        if t.op in ('numpy.linspace', 'numpy.atleast_1d'):
            found[0] += 1
            lens[length(t).fp] = 1
            return op('index', t, i)
        if t.op == '+':
            c, d = t.meta
            return add([C(c)] + [mul(C(co), go(b)) for co, b in d.values()])
        if t.op == '*':
            c, d = t.meta
            r = C(c)
            for e, b in d.values():
                r = mul(r, power(go(b), C(e)))
            return r
        if t.op in ELEMENTWISE:
            return remake(None, t, [go(a) for a in t.args])
        if t.const is not NOC or t.op in ('num', 'len', 'shapek', 'size', 'ndim', 'glob', 'cnum', 'ph', 'idx', 'sum', 'floor', 'trunc'):
            return t
        ok[0] = False
        return t
    r = go(x)
    if ok[0] and found[0] and len(lens) == 1 and isinstance(r, T):
        return r
    return None


def _interp():
    return CURRENT[0]


CURRENT = [None]


def store(x, i, v):
    i = canon_index(i)
    if isinstance(i, (Obj, Fn)):
        i = toT(i)
    if isinstance(v, Raise):
        return v
    if isinstance(v, (Obj, Fn)):
        v = toT(v)
    if full_slice(i) or (isinstance(i, T) and i.const is Ellipsis):
        if isinstance(v, T):
            if x.op == 'full' or True:
                return v if v.const is NOC else op('full', shape(x), v)
    # mask stores are selections
    if isinstance(i, T) and i.op in ('pos', 'zero', 'eq', 'not', 'and', 'or') or (isinstance(i, T) and i.op == 'numpy.nonzero'):
        m = i.args[0] if i.op == 'numpy.nonzero' else i
        vt = toT(v)
        if vt.op == 'index' and vt.args[1].fp == i.fp:
            vt = vt.args[0]
        elif vt.phs is not None and vt.op in ('+', '*') or vt.op in ELEMENTWISE:
            # elementwise expression of masked selections with the same mask
            vt2 = unmask(vt, i)
            if vt2 is None:
                return op('store', x, i, v)
            vt = vt2
        return where(m, vt, x)
    if x.op == 'store' and x.args[1].fp == i.fp:
        x = x.args[0]
    return op('store', x, i, v)


def unmask(t, m):
    ok = [True]

    def go(s):
        if not isinstance(s, T):
            ok[0] = False
            return s
        if s.op == 'index' and s.args[1].fp == m.fp:
            return s.args[0]
        if s.op == '+':
            c, d = s.meta
            return add([C(c)] + [mul(C(co), go(b)) for co, b in d.values()])
        if s.op == '*':
            c, d = s.meta
            r = C(c)
            for e, b in d.values():
                r = mul(r, power(go(b), C(e)))
            return r
        if s.op in ELEMENTWISE:
            return remake(None, s, [go(a) for a in s.args])
        if not s.args:
            return s
        if contains_mask(s, m):
            ok[0] = False
        return s
    r = go(t)
    return r if ok[0] and isinstance(r, T) else None


def contains_mask(t, m):
    if t.fp == m.fp:
        return True
    if isinstance(t, T):
        return any(contains_mask(a, m) for a in t.args)
    return False


def where(m, a, b):
    if isinstance(m, T):
        if m.const is True:
            return a
        if m.const is False:
            return b
        if m.op == 'not':
            return where(m.args[0], b, a)
    if a.fp == b.fp:
        return a
    if isinstance(m, T) and isinstance(b, T) and b.op == 'full' and boolean(m):
        # zeros set to one where a condition holds: the condition, as numbers
        x, y = as_num(a), as_num(b.args[1])
        if (x, y) in ((1, 0), (0, 1)) and infer(m)[0] == 'arr' and (shape(m).fp == b.args[0].fp or b.args[0].op == 'shape' and elementwise_in(b.args[0].args[0], m)):
            return m if x == 1 else lnot(m)
    if isinstance(m, T) and boolean(m):
        if isinstance(a, T) and a.op == 'where' and a.args[2].fp == b.fp:
            return where(logic('and', m, a.args[0]), a.args[1], b)
        if isinstance(b, T) and b.op == 'where' and b.args[1].fp == a.fp:
            return where(logic('or', m, b.args[0]), a, b.args[2])
    return op('where', m, a, b)


# -- attributes and methods ------------------------------------------------------------------------

def attribute(x, name):
    if name == 'shape':
        return shape(x)
    if name == 'size':
        return size(x)
    if name == 'ndim':
        return ndim(x)
    if name == 'T':
        return transpose(x)
    if x.op == 'hdu' and name in ('data', 'header'):
        return x.args[0 if name == 'data' else 1]
    if name == 'real':
        return op('numpy.real', x)
    if name == 'imag':
        return op('numpy.imag', x)
    if name == 'dtype':
        return op('dtype', x)
    if x.op in ('lib', 'mod'):
        return libconst('.'.join([str(x.meta[0]), name])) if x.op == 'lib' else leaf('undefined', x.meta[0], name)
    return op('attr', x, meta=name, head=None)


def method(interp, x, name, vals, kv, st):
    if name in ('copy', 'view') and not vals:
        return x
    if name == 'tolist' or name == 'item' and not vals:
        return x
    if name == 'flatten' or name == 'ravel':
        return flat(x, vals[0] if vals else kv.get('order'))
    if name == 'astype':
        return astype(x, vals[0] if vals else kv.get('dtype', NONE))
    if name in ('conjugate',):
        name = 'conj'
    if name == 'keys' and not vals:
        return op('dictkeys', x)
    if name == 'values' and not vals:
        return op('dictvalues', x)
    if name == 'items' and not vals:
        return op('dictitems', x)
    if isinstance(x.const, str) and all(isinstance(v, T) and isinstance(v.const, str) for v in vals) and not kv and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'title'):
        return C(getattr(x.const, name)(*[v.const for v in vals]))
    if isinstance(x.const, str) and not kv and name in ('split', 'rsplit', 'find', 'rfind', 'partition', 'rpartition', 'isdigit', 'isalpha', 'count', 'rstrip', 'lstrip', 'splitlines') \
            and all(isinstance(v, T) and (isinstance(v.const, str) or as_num(v) is not None) for v in vals):
        return of_python(getattr(x.const, name)(*[v.const if isinstance(v.const, str) else int(as_num(v)) for v in vals]))
    if name in STR_METHODS:
        if name == 'format':
            return op('fstr', x, *([toT(v) for v in vals] + [toT(kv[k]) for k in sorted(kv)]))
        return op('method:' + name, x, *[toT(v) for v in vals])
    if name in ARRAY_METHODS:
        if name == 'reshape' and len(vals) > 1:
            vals = [Tup('tuple', vals)]
        if name == 'transpose' and len(vals) > 1:
            vals = [Tup('tuple', vals)]
        return libcall(interp, 'numpy.' + name, [x] + vals, kv, st, None)
    names = sorted(kv)
    return op('m:' + name, x, *([toT(v) for v in vals] + [toT(kv[k]) for k in names]), meta=tuple(names) or None)


def of_python(r):
    if isinstance(r, (list, tuple)):
        return Tup('list' if isinstance(r, list) else 'tuple', [of_python(i) for i in r])
    return C(r)


PATHS = {'os.path.basename': os.path.basename, 'os.path.dirname': os.path.dirname, 'os.path.split': os.path.split, 'os.path.splitext': os.path.splitext, 'os.path.join': os.path.join}


def flat(x, order=None):
    if isinstance(x, Tup):
        x = T_seq(x)
    if order is not None and not (isinstance(order, T) and (order.const is None or isinstance(order.const, str) and order.const.upper() in ('C', 'F'))):
        return op('numpy.ravel', x, toT(order), meta=('order',))
    if order is not None and order.const is not None and order.const.upper() == 'F':
        x = transpose(x)
    if x.op == 'numpy.ravel' and len(x.args) == 1 or infer(x) == ('arr', 1):
        return x
    return op('numpy.ravel', x)


PERMUTING = ('numpy.swapaxes', 'numpy.moveaxis', 'numpy.rollaxis', 'numpy.transpose')


def axis_number(v, n):
    k = as_num(v) if isinstance(v, T) else None
    return int(k) % n if k is not None and k == int(k) and -n <= k < n else None


def permute(name, x, args, raw):
    """the ways to reorder a known number of axes in one form: the permutation"""
    kind, n = infer(x)
    if kind != 'arr' or not n:
        return None
    if name == 'numpy.transpose':
        if not args:
            return None
        if not (len(raw) == 1 and isinstance(raw[0], Tup) and len(raw[0].items) == n):
            return None
        perm = [axis_number(i, n) for i in raw[0].items]
        if sorted(p for p in perm if p is not None) != list(range(n)):
            return None
    elif name == 'numpy.swapaxes':
        if len(args) != 2:
            return None
        i, j = axis_number(args[0], n), axis_number(args[1], n)
        if i is None or j is None:
            return None
        perm = list(range(n))
        perm[i], perm[j] = j, i
    elif name == 'numpy.moveaxis':
        if len(args) != 2:
            return None
        sd = []
        for a in raw[:2]:
            its = a.items if isinstance(a, Tup) else [a]
            sd.append([axis_number(i, n) for i in its])
        src, dst = sd
        if None in src + dst or len(src) != len(dst) or len(set(src)) != len(src) or len(set(dst)) != len(dst):
            return None
        perm = [k for k in range(n) if k not in src]
        for d, k in sorted(zip(dst, src)):
            perm.insert(d, k)
    else:
        i = axis_number(args[0], n) if args else None
        st = as_num(args[1]) if len(args) > 1 else 0
        if i is None or st is None or not 0 <= st <= n:
            return None
        perm = [k for k in range(n) if k != i]
        perm.insert(int(st) - (1 if st > i else 0), i)
    return permuted(x, perm)


def permuted(x, perm):
    n = len(perm)
    if x.op == 'numpy.transpose' and len(x.args) == 2 and isinstance(x.args[1].const, str):
        q = [int(c) for c in x.args[1].const.split(':')[1].split(',')]
        x, perm = x.args[0], [q[p] for p in perm]
    elif x.op == 'numpy.transpose' and len(x.args) == 1:
        x, perm = x.args[0], [n - 1 - p for p in perm]
    if perm == list(range(n)):
        return x
    if perm == list(range(n))[::-1]:
        return transpose(x)
    return op('numpy.transpose', x, C('perm:' + ','.join(str(p) for p in perm)))


def transpose(x):
    if x.op == 'numpy.transpose' and len(x.args) == 2 and isinstance(x.args[1].const, str) and x.args[1].const.startswith('perm:'):
        q = [int(c) for c in x.args[1].const.split(':')[1].split(',')]
        return permuted(x, list(range(len(q)))[::-1])
    if x.op == 'numpy.transpose' and len(x.args) == 1:
        return x.args[0]
    return op('numpy.transpose', x)


CUBIC = set()     # arrays declared to have three equal sides
DIMS = {}         # (array, axis): declared length


def astype(x, d):
    n = dtype_name(d)
    if isinstance(x, Tup):
        x = T_seq(x)
    if fileio.KEEP[0]:
        c = fileio.canon_dtype(d)
        if x.op == 'astype' and x.args[1].fp == c.fp:
            return x
        if x.op == 'numpy.ravel' and len(x.args) > 1 or x.op == 'numpy.transpose' and len(x.args) == 1:
            return op(x.op, astype(x.args[0], d), *x.args[1:], meta=x.meta)
        return op('astype', x, c, meta=c.const if isinstance(c.const, str) else None)
    if n in ('float', 'complex', 'none'):
        return x
    if n == 'int':
        return trunc(x)
    if n == 'bool':
        if x.op in ('pos', 'zero', 'eq', 'not', 'and', 'or'):
            return x
        return lnot(equal(x, ZERO)) if not isinstance(equal(x, ZERO), G) else op('astype', x, meta='bool')
    return op('astype', x, toT(d), meta=n)


def dtype_name(d):
    if isinstance(d, T):
        if d.const is None:
            return 'none'
        if isinstance(d.const, str):
            s = d.const.lower()
            if s in ('float64', 'float', 'f8', 'd', '<f8', 'double'):
                return 'float'
            if s in ('int', 'int64', 'int32', 'i8', 'i4', '<i4', '<i8'):
                return 'int' if s in ('int', 'int64', 'i8') else s
            if s in ('complex', 'complex128', 'c16'):
                return 'complex'
            if s == 'bool':
                return 'bool'
            return s
        if d.op == 'lib':
            n = d.meta[0].split('.')[-1]
            return {'float': 'float', 'float64': 'float', 'double': 'float', 'float_': 'float', 'int': 'int', 'int64': 'int', 'int_': 'int', 'int32': 'int32', 'complex': 'complex', 'complex128': 'complex',
                    'bool': 'bool', 'bool_': 'bool'}.get(n, n)
        if d.op == 'dtype':
            return 'dtypeof'
    return '?'


def rng_call(interp, name, vals, kv, st):
    r = st.heap.get(('rng',), leaf('rng'))
    short = name.split('.')[-1]
    if name.startswith('random.'):
        short = 'py.' + short
    if short in ('seed', 'py.seed'):
        st.heap[('rng',)] = op('seed', *[toT(v) for v in vals]) if vals else op('unseeded', r)
        return NONE
    alias = {'standard_normal': 'randn', 'random_sample': 'random', 'rand': 'random'}
    short = alias.get(short, short)
    names = sorted(kv)
    d = op('draw:' + short, r, *([toT(v) for v in vals] + [toT(kv[k]) for k in names]), meta=tuple(names) or None)
    st.heap[('rng',)] = op('rngnext', d, head=None)
    return d


def product(ts):
    r = ONE
    for t in ts:
        r = mul(r, t)
    return r


def np_sum(x, axis=None):
    if isinstance(x, G):
        return lift(lambda a: np_sum(a, axis), x)
    x = toT(x)
    if x.op == 'full' and axis is None and x.args[0].op not in ('seq', 'shape'):
        return mul(x.args[0], x.args[1])
    if x.op == '*':
        # factors that do not vary over the array
        c, d = mono(x)
        out, rest = [C(c)], []
        for e, b in d.values():
            (out if infer(b)[0] in ('float', 'int') else rest).append(power(b, C(e)))
        if rest and (len(out) > 1 or c != 1):
            return mul(product(out), np_sum(product(rest), axis))
    if axis is None:
        if x.op == 'not' and boolean(x):
            return sub(size(x.args[0]), op('sum', x.args[0]))
        return op('sum', x)
    return op('sum', x, axis)


def libcall(interp, name, vals, kv, st, fr):
    name = ALIASES.get(name, name)
    raw = vals
    if name in PATHS and vals and not kv and all(isinstance(v, T) and isinstance(v.const, str) for v in vals):
        return of_python(PATHS[name](*[v.const for v in vals]))
    if name in ('float', 'int') and len(vals) == 1 and isinstance(vals[0], T) and isinstance(vals[0].const, str):
        try:
            return C(Fraction(vals[0].const.strip())) if name == 'float' else C(int(vals[0].const))
        except ValueError:
            return RAISE
    if name in IDENT:
        return vals[0] if vals else NONE
    if name in ('numpy.array',):
        x = vals[0]
        d = kv.get('dtype', vals[1] if len(vals) > 1 else None)
        if d is not None:
            return astype(toT(x), d)
        if isinstance(x, Tup) and x.kind in ('list', 'tuple'):
            if x.items and all(isinstance(i, T) and i.const is not NOC for i in x.items):
                return op('seq', Tup('tuple', x.items), head=None)
            return op('seq', Tup('tuple', x.items), head=None)
        return x
    if name in ('list', 'tuple', 'set', 'sorted'):
        if not vals:
            return Tup(name if name != 'sorted' else 'list', ())
        x = vals[0]
        if name == 'sorted':
            return op('numpy.sort', toT(x), *[toT(kv[k]) for k in sorted(kv)])
        if isinstance(x, Tup) and x.kind in ('list', 'tuple'):
            return Tup(name, x.items) if name != 'set' else op('set', toT(x))
        if isinstance(x, Tup) and x.kind in ('range', 'zip', 'enumerate'):
            d = interp.iter_desc(x)
            if d[0] == 'unroll':
                return Tup('list', d[1])
            i = fresh()
            return interp.close_map(d[1], i, d[2](i))
        if name == 'set':
            return op('set', toT(x))
        return x
    if name == 'dict':
        if not vals:
            ks = sorted(kv)
            return Tup('dict', [kv[k] for k in ks], [C(k) for k in ks])
        return op('dict', *[toT(v) for v in vals])
    if name == 'range':
        v = [toT(x) for x in vals]
        a, b, s = (ZERO, v[0], ONE) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else ONE)
        return Tup('range', (a, b, s))
    if name == 'numpy.arange':
        v = [toT(x) for x in vals]
        a, b, s = (ZERO, v[0], ONE) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else kv.get('step', ONE))
        if 'step' in kv:
            s = kv['step']
        return op('arange', a, b, s)
    if name == 'enumerate':
        return Tup('enumerate', (vals[0], vals[1] if len(vals) > 1 else kv.get('start', ZERO)))
    if name == 'zip':
        return Tup('zip', vals)
    if name == 'len':
        return length(vals[0]) if isinstance(vals[0], (T, Tup)) else op('len', toT(vals[0]))
    if name == 'numpy.shape':
        return shape(toT(vals[0]))
    if name == 'numpy.size' and len(vals) == 1 and not kv:
        return size(toT(vals[0]))
    if name == 'numpy.ndim':
        return ndim(toT(vals[0]))
    if name in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like'):
        base = name.split('.')[1].replace('_like', '')
        x = vals[0] if vals else kv.get('shape', NONE)
        if name.endswith('_like'):
            s = shape(toT(x))
        else:
            if isinstance(x, Tup) and len(x.items) == 1:
                x = x.items[0]
            s = toT(x)
        if base == 'full':
            f = toT(vals[1] if len(vals) > 1 else kv['fill_value'])
            d = vals[2] if len(vals) > 2 else kv.get('dtype')
        else:
            f = {'zeros': ZERO, 'ones': ONE, 'empty': leaf('uninit')}[base]
            d = vals[1] if len(vals) > 1 else kv.get('dtype')
        n = dtype_name(d) if d is not None else 'none'
        if n == 'bool':
            f = {'zeros': FALSE, 'ones': TRUE}.get(base, f)
        return op('full', s, f, meta=(n if n not in ('none', 'float', 'complex', 'bool') else None))
    args = [toT(v) for v in vals]
    if name in INTT:
        return trunc(args[0])
    if name == 'numpy.floor':
        return floor(args[0])
    if name == 'numpy.ceil':
        return ceil(args[0])
    if name in ('bool', 'numpy.bool_'):
        return interp.truth(vals[0])
    if name == 'str':
        v = args[0].const
        if isinstance(v, str):
            return args[0]
        if v is not NOC and not isinstance(v, bool) and as_num(args[0]) is not None and as_num(args[0]).denominator == 1 and not isinstance(v, float):
            return C(str(int(as_num(args[0]))))
        return op('fmt', args[0], meta='')
    if name == 'numpy.setdiff1d' and len(vals) == 2:
        r = set_difference(vals[0], vals[1])
        if r is not None:
            return r
    if name in ('numpy.sqrt',):
        return power(args[0], C(Fraction(1, 2)))
    if name in ('numpy.logspace', 'numpy.geomspace') and len(vals) <= 5 and set(kv) <= {'start', 'stop', 'num', 'endpoint', 'base'}:
        # powers of evenly spaced exponents
        q = dict(zip(('start', 'stop', 'num', 'endpoint', 'base'), vals))
        q.update(kv)
        base = toT(q.pop('base', C(10)))
        if 'start' in q and 'stop' in q:
            if name == 'numpy.geomspace':
                base = C(10)
                for k in ('start', 'stop'):
                    q[k] = libcall(interp, 'numpy.log10', [q[k]], {}, st, fr)
            return power(base, toT(libcall(interp, 'numpy.linspace', [], q, st, fr)))
    if name == 'numpy.cbrt':
        return power(args[0], C(Fraction(1, 3)))
    if name == 'numpy.square':
        return power(args[0], C(2))
    if name == 'numpy.reciprocal':
        return power(args[0], C(-1))
    if name == 'numpy.negative':
        return neg(args[0])
    if name == 'numpy.power' and len(args) == 2:
        return power(args[0], args[1])
    if len(args) == 2 and not kv:
        b = {'numpy.add': 'Add', 'numpy.subtract': 'Sub', 'numpy.multiply': 'Mult', 'numpy.divide': 'Div', 'numpy.true_divide': 'Div', 'numpy.floor_divide': 'FloorDiv', 'numpy.mod': 'Mod',
             'numpy.remainder': 'Mod', 'operator.add': 'Add', 'operator.mul': 'Mult', 'numpy.bitwise_and': 'BitAnd', 'numpy.logical_and': 'BitAnd', 'numpy.bitwise_or': 'BitOr',
             'numpy.logical_or': 'BitOr'}.get(name)
        if b:
            return binop(b, *args)
        c = {'numpy.greater': 'Gt', 'numpy.less': 'Lt', 'numpy.greater_equal': 'GtE', 'numpy.less_equal': 'LtE'}.get(name)
        if c:
            return compare(c, *args)
        if name == 'numpy.equal':
            return equal(*args)
        if name == 'numpy.not_equal':
            return lnot(equal(*args))
    if name in ('numpy.logical_not', 'numpy.invert', 'numpy.bitwise_not'):
        return lnot(args[0])
    if name in ('max', 'min'):
        if len(args) == 1:
            name = 'numpy.' + name
            if isinstance(raw[0], Tup) and raw[0].kind in ('list', 'tuple') and raw[0].items:
                args = [toT(i) for i in raw[0].items]
                return minmax(name[6:], args)
        else:
            return minmax(name, args)
    if name in ('numpy.maximum', 'numpy.minimum', 'numpy.fmax', 'numpy.fmin') and len(args) == 2:
        return minmax('max' if 'max' in name else 'min', args)
    if name == 'numpy.clip' and len(args) == 3 and not kv:
        lo, hi = args[1], args[2]
        r = args[0]
        if lo.const is not None:
            r = minmax('max', [r, lo])
        if hi.const is not None:
            r = minmax('min', [r, hi])
        return r
    if name == 'numpy.where':
        if len(args) == 3:
            return where(*args)
        if len(args) == 1:
            return op('numpy.nonzero', args[0])
    if name == 'sum':
        name = 'numpy.sum'
        if isinstance(raw[0], Tup) and raw[0].kind in ('list', 'tuple'):
            return add([toT(i) for i in raw[0].items] + args[1:])
    if name == 'numpy.sum' and len(args) == 1 and not kv and isinstance(raw[0], Tup) and raw[0].kind in ('list', 'tuple') and all(isinstance(i, T) for i in raw[0].items):
        return op('sum', args[0])
    if name == 'isinstance' or name == 'type':
        return op(name, *args)
    if name in ('hasattr', 'getattr') and len(args) >= 2 and isinstance(args[1].const, str):
        if name == 'hasattr' and args[1].const in ('__iter__', '__len__', 'shape') and infer(args[0])[0] in ('arr', 'list', 'float', 'int') and infer(raw[0])[0] != 'list':
            return C(infer(args[0])[0] == 'arr' or (infer(args[0])[0] == 'list' and args[1].const != 'shape'))
        if name == 'hasattr' and args[1].const == '__iter__' and (isinstance(raw[0], Tup) or args[0].op in ITERABLE):
            return TRUE
        if name == 'getattr' and len(args) == 2:
            return attribute(args[0], args[1].const)
        return op(name, *args)
    if name in ('numpy.arctan2', 'numpy.hypot'):
        return op(name, *args)
    if name == 'numpy.linalg.norm' and len(args) == 1 and not kv:
        return op(name, args[0])
    if name == 'numpy.ravel' and args:
        return flat(args[0], args[1] if len(args) > 1 else kv.get('order'))
    if name in PERMUTING and args and not kv:
        r = permute(name, args[0], args[1:], raw[1:])
        if r is not None:
            return r
    if name == 'numpy.transpose' and len(args) == 1 and not kv:
        return transpose(args[0])
    if name == 'numpy.reshape' and len(args) >= 2 and as_num(args[1]) == -1:
        return flat(args[0], args[2] if len(args) > 2 else kv.get('order'))
    if name == 'numpy.reshape' and len(args) >= 2:
        r = fileio.reshape(args[0], args[1], args[2] if len(args) > 2 else kv.get('order'))
        if r is not None:
            return r
        o = kv.get('order')
        if o is not None and o.const is not NOC and (o.const is None or o.const in ('C', 'c')):
            kv = {k: v for k, v in kv.items() if k != 'order'}
    if name in ('numpy.real', 'numpy.imag', 'numpy.transpose', 'numpy.ravel') and len(args) == 1:
        return op(name, args[0])
    if name == 'numpy.abs' and len(args) == 1:
        n = as_num(args[0])
        if n is not None:
            return C(abs(n))
        return absval(args[0])
    if name == 'numpy.newaxis':
        return NONE
    if name == 'numpy.isscalar' and infer(args[0])[0] in ('arr', 'float', 'int', 'list', 'str'):
        return C(infer(args[0])[0] in ('float', 'int', 'str'))
    if name == 'callable' and isinstance(args[0], T) and args[0].op == 'lambda':
        return TRUE
    if name == 'callable' and infer(args[0])[0] is not None:
        return C(infer(args[0])[0] == 'func')
    if name == 'numpy.atleast_1d' and len(args) == 1:
        k, n = infer(args[0])
        if k == 'arr' and n != 0:
            return args[0]
        if k in ('float', 'int'):
            return op('seq', Tup('tuple', (args[0],)), head=None)
    if name == 'numpy.isscalar':
        return op(name, args[0])
    if name == 'slice':
        v = [toT(x) for x in vals]
        if len(v) == 1:
            return mkslice(NONE, v[0], NONE)
        return mkslice(v[0], v[1], v[2] if len(v) > 2 else NONE)
    return generic(name, args, kv)


def absval(t):
    c, m = mono(t)
    if c != 1 and m:
        inner = mk_mono(Fraction(1), m)
        return mul(C(abs(c)), absval(inner)) if t.op == '*' else op('numpy.abs', t)
    t2 = neg(t)
    if t.op == '+' and t2.fp < t.fp:
        t = t2
    return op('numpy.abs', t)


def minmax(which, args):
    nums = [as_num(a) for a in args]
    if all(n is not None for n in nums):
        return C(max(nums) if which == 'max' else min(nums))
    d = {}
    for a in args:
        for b in (a.args if a.op == which + '2' else (a,)):
            d[b.fp] = b
    ls = [d[k] for k in sorted(d)]
    if len(ls) == 1:
        return ls[0]
    return op(which + '2', *ls)


def generic(name, args, kv):
    """library call with arguments bound to parameter names and defaults dropped"""
    sig = SIG.get(name)
    kv = dict(kv)
    if sig is not None and sig[0]:
        names, req = sig
        pos = []
        for n, a in zip(names, args):
            kv[n] = a
        rest = args[len(names):]
        for n in names[:req]:
            if n in kv:
                pos.append(toT(kv.pop(n)))
        for n in list(kv):
            dv = PER_DEFAULT.get((name, n), DEFAULTS.get(n, NOC))
            v = kv[n]
            if dv is not NOC:
                if isinstance(v, T) and v.const is not NOC:
                    if dv is None or isinstance(dv, (bool, str)):
                        if v.const is dv or v.const == dv and type(v.const) == type(dv):
                            kv.pop(n)
                            continue
                    elif as_num(v) == dv and v.const is not True and v.const is not False:
                        kv.pop(n)
                        continue
                if isinstance(v, Tup) and not v.items and dv == ():
                    kv.pop(n)
                    continue
                if name == 'numpy.histogram' and n == 'density' and isinstance(v, T) and v.const is False:
                    kv.pop(n)
                    continue
            if n == 'dtype' and (dtype_name(v) in ('float',) or name == 'numpy.indices'):
                kv.pop(n)
        args = pos + rest
        if name == 'numpy.sum' and not rest:
            if set(kv) <= {'axis'}:
                return np_sum(args[0], toT(kv['axis']) if 'axis' in kv else None)
        if name == 'numpy.mean' and not kv:
            return div(np_sum(args[0]), size_of(args[0]))
        if name == 'numpy.std' and not kv:
            return power(op('numpy.var', args[0]), C(Fraction(1, 2)))
        if name == 'numpy.prod' and not kv and args[0].op == 'shape':
            return size(args[0].args[0])
        if name == 'numpy.prod' and not kv and args[0].op == 'seq' and isinstance(args[0].args[0], Tup) and all(isinstance(i, T) for i in args[0].args[0].items):
            r = ONE
            for i in args[0].args[0].items:
                r = mul(r, i)
            return r
        if name in ('numpy.dot', 'numpy.matmul') and len(args) == 2:
            return matmul(*args)
    names = sorted(kv)
    return op(name, *(args + [toT(kv[k]) for k in names]), meta=tuple(names) or None)


def size_of(x):
    if x.op == 'full' and x.args[0].op not in ('seq', 'shape'):
        return x.args[0]
    if x.op in ('map',):
        return x.args[0] if isinstance(x.args[1], T) and x.args[1].op not in ('seq', 'index', 'map') else size(x)
    return size(x)


from . import fileio     # noqa: E402  (mutual import)


# -- rebuilding ------------------------------------------------------------------------------------

def remake(interp, x, a):
    """term with the operation of x and operands a, renormalised"""
    o = x.op
    if any(isinstance(v, Raise) for v in a):
        return RAISE
    a = list(a)
    if o == 'index':
        if isinstance(a[0], (Tup, Obj)):
            if interp is not None and isinstance(a[0], Tup):
                return interp.subscript(a[0], a[1])
            a[0] = toT(a[0])
        return index(a[0], a[1])
    if o == 'attr':
        if isinstance(a[0], (T, Obj, Tup)) and interp is not None:
            if isinstance(a[0], Obj):
                if x.meta in a[0].fields:
                    return a[0].fields[x.meta]
                return attribute(toT(a[0]), x.meta)
        return attribute(toT(a[0]), x.meta)
    if o == 'seq':
        if isinstance(a[0], Tup):
            return op('seq', a[0], head=None)
        return toT(a[0])
    if o == 'store':
        return store(toT(a[0]), a[1], a[2])
    if o == 'append':
        return op('append', toT(a[0]), a[1])
    if o in ('obj',):
        return op(o, a[0], head=None)
    if o == 'len':
        return length(a[0] if isinstance(a[0], (T, Tup)) else toT(a[0]))
    a = [toT(v) if not isinstance(v, Tup) else v for v in a]
    if o == 'slice':
        return mkslice(*a)
    a = [toT(v) for v in a]
    if o == 'pos':
        return pos(a[0])
    if o in ('zero',):
        return equal(a[0], ZERO)
    if o == 'eq':
        return equal(a[0], a[1])
    if o == 'not':
        return lnot(a[0])
    if o in ('and', 'or'):
        r = a[0]
        for b in a[1:]:
            r = logic(o, r, b)
        return r
    if o == 'isinst' and interp is not None:
        return interp.isinst(a[0], x.meta)
    if o == 'pow':
        return power(*a)
    if o == 'floor':
        return floor(a[0])
    if o == 'ceil':
        return ceil(a[0])
    if o == 'trunc':
        return trunc(a[0])
    if o == 'mod':
        return binop('Mod', *a)
    if o == 'sum':
        return np_sum(a[0], a[1] if len(a) > 1 else None)
    if o == 'size':
        return size(a[0])
    if o == 'shape':
        return shape(a[0])
    if o == 'shapek':
        return shape_index(a[0], a[1])
    if o == 'where':
        return where(*a)
    if o == 'numpy.abs':
        return absval(a[0])
    if o in ('max2', 'min2'):
        return minmax(o[:3], a)
    if o == 'strcat' and all(isinstance(v.const, str) for v in a):
        return C(a[0].const + a[1].const)
    if o == 'astype':
        return op('astype', a[0], *a[1:], meta=x.meta)
    if o == 'numpy.transpose' and len(a) == 1:
        return transpose(a[0])
    if o == 'numpy.reshape' and len(a) == 2:
        r = fileio.reshape(a[0], a[1], None)
        if r is not None:
            return r
    return op(o, *a, meta=x.meta, head=(None if o in NOHEAD or o == 'slice' else o if not o.startswith('rngnext') else None))
