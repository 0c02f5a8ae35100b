"""Files and streams in the value graph.

A file opened for writing has a content term in the state, key ('file', name); every write appends to it.  A stream
opened for reading has a position term, key ('pos', stream).  Reading a file whose content was written earlier in
the same evaluation consumes the written pieces: the element type and the count asked for must be the ones written,
and the cell order is tracked through flatten/transpose/reshape.  Anything else reads as `misread`, which equals nothing.
Reading an unknown file gives terms that name the position, the element type and the count, so the order of reads counts.
"""
from .terms import *
from . import vglib
from .vglib import toT, as_num, infer, shape_index, size

KEEP = [False]          # keep conversions to float64 (they decide the bytes written)
HEADS = {'payload', 'fread', 'misread', 'start', 'after', 'old', 'astype', 'numpy.ravel', 'numpy.transpose', 'numpy.reshape', 'shapek', 'shape', 'fwrite', 'empty',
         'stream', 'seek', 'bytes', 'pickled', 'jsoned', 'yamled', 'npy', 'npz', 'fits', 'hdu', 'size', 'len', 'index', 'store', 'full', 'seq', 'text', 'file', 'str', 'repr', 'fmt'}
WRITE_CALLS = {'numpy.save', 'numpy.savetxt', 'numpy.savez', 'numpy.savez_compressed', 'pickle.dump', 'json.dump', 'yaml.dump', 'yaml.safe_dump', 'astropy.io.fits.writeto'}
READ_CALLS = {'numpy.fromfile', 'pickle.load', 'json.load', 'yaml.safe_load', 'yaml.load', 'numpy.load', 'astropy.io.fits.open', 'astropy.io.fits.getdata'}
CALLS = WRITE_CALLS | READ_CALLS | {'open', 'io.open', 'next'}
TAGS = {'pickle': 'pickled', 'json': 'jsoned', 'yaml': 'yamled'}
METHODS = {'tofile', 'write', 'writelines', 'read', 'readline', 'readlines', 'seek', 'tell', 'close', 'flush', '__enter__', '__exit__'}
WRITERS = {'to_netcdf', 'to_zarr', 'to_csv', 'to_parquet', 'to_excel', 'to_hdf', 'to_json', 'to_pickle', 'writeto', 'savefig'}
METHODS |= WRITERS


def canon_dtype(d):
    if d is None or isinstance(d, T) and d.const is None:
        return C('float64')
    n = vglib.dtype_name(d)
    m = {'float': 'float64', 'int': 'int64', 'single': 'float32', 'f4': 'float32', '<f4': 'float32', '=f4': 'float32', 'i4': 'int32', '<i4': 'int32', '=i4': 'int32', 'f': 'float32',
         'i': 'int32', 'intc': 'int32', '<f8': 'float64', '=f8': 'float64', 'u1': 'uint8', 'longlong': 'int64', 'l': 'int64', 'q': 'int64', '<i8': 'int64'}
    if n in ('none', '?', 'dtypeof'):
        return toT(d)
    n = m.get(n, n)
    if n in ('float32', 'float64', 'int32', 'int64', 'uint8', 'uint32', 'int16', 'bool', 'complex'):
        return C(n)
    return C('dtype:' + n)


def mode_of(vals, kv):
    m = vals[1] if len(vals) > 1 else kv.get('mode')
    if m is None:
        return 'r'
    if isinstance(m, T) and isinstance(m.const, str):
        s = m.const.replace('b', '').replace('t', '')
        return s if s in ('r', 'w', 'a', 'x') else s or 'r'
    return '?'


def peel(x):
    """(base, order, dtype) of the bytes written for array x; dtype None when x's own"""
    dt = None
    flips = 0
    flat = False
    while isinstance(x, T):
        if x.op == 'astype':
            d = canon_dtype(x.args[1]) if len(x.args) > 1 else C(x.meta or '?')
            if dt is None:
                dt = d
            elif dt.fp != d.fp:
                break
            x = x.args[0]
        elif x.op == 'numpy.ravel' and len(x.args) == 1:
            flips = 0
            flat = True
            x = x.args[0]
        elif x.op == 'numpy.transpose' and len(x.args) == 1:
            flips += 1
            x = x.args[0]
        elif x.op == 'numpy.ravel' and len(x.args) == 2 and getattr(x.args[1], 'const', None) in ('K', 'A', 'k', 'a'):
            # the order in which the caller's array happens to be stored
            b = x.args[0]
            while isinstance(b, T) and b.op == 'astype':
                dt = dt or (canon_dtype(b.args[1]) if len(b.args) > 1 else C(b.meta or '?'))
                b = b.args[0]
            if isinstance(b, T) and not b.args:
                return b, 'as stored', dt, True
            break
        else:
            break
    return x, flips % 2, dt, flat


def items_of(x):
    """the elements of a small array built element by element, with its element type"""
    st = {}
    while isinstance(x, T) and x.op == 'store' and isinstance(x.args[1], T) and as_num(x.args[1]) is not None:
        st.setdefault(int(as_num(x.args[1])), toT(x.args[2]))
        x = x.args[0]
    if isinstance(x, T) and x.op == 'full':
        n = as_num(x.args[0])
        if x.args[0].op == 'seq' and isinstance(x.args[0].args[0], Tup) and len(x.args[0].args[0].items) == 1:
            n = as_num(toT(x.args[0].args[0].items[0]))
        if n is not None and 0 < n <= 32:
            its = [x.args[1]]*int(n)
            for k, v in st.items():
                if not -n <= k < n:
                    return None, None
                its[k] = v
            return its, (canon_dtype(C(x.meta)) if isinstance(x.meta, str) else None)
    if isinstance(x, T) and x.op == 'seq' and isinstance(x.args[0], Tup) and all(isinstance(i, T) for i in x.args[0].items):
        its = list(x.args[0].items)
        for k, v in st.items():
            if not -len(its) <= k < len(its):
                return None, None
            its[k] = v
        return its, None
    if isinstance(x, T) and x.op == 'shape' and not st:
        n = infer(x.args[0])[1]
        if n:
            return [shape_index(x.args[0], C(i)) for i in range(n)], None
    return None, None


def payload(x):
    x = toT(x)
    b, order, dt, _ = peel(x)
    its, d2 = items_of(b)
    if its is not None:
        b = op('seq', Tup('tuple', its), head=None)
        order = 0
        dt = dt or d2 or C('int64' if all(vglib.integral(i) for i in its) else 'float64')
    if infer(b) == ('arr', 1):
        order = 0
    return op('payload', b, C(order), dt if dt is not None else op('dtype', b))


def chain(c):
    """list of pieces of a content term that starts from an empty file, else None"""
    out = []
    while isinstance(c, T) and c.op == 'fwrite':
        out.append(c.args[1])
        c = c.args[0]
    if isinstance(c, T) and c.op == 'empty':
        return out[::-1]
    return None


def start(st, interp, name):
    c = st.heap.get(('file', name.fp))
    if c is None:
        return op('start', name)
    p = chain(c) if isinstance(c, T) else None
    if p is None:
        return op('start', collapse(c) if isinstance(c, G) else c)
    return op('bytes', *p)


def is_stream(x):
    return isinstance(x, T) and x.op == 'stream'


def pos_of(st, f, interp=None):
    k = ('pos', f.fp)
    v = st.heap.get(k)
    if v is None:
        v = op('start', f)
    return v


WIDTH = {'float32': 4, 'float64': 8, 'int32': 4, 'int64': 8, 'uint8': 1, 'uint32': 4, 'int16': 2}


def offset(p):
    """a position in a file as a start and a number of bytes"""
    if isinstance(p, G):
        return ite(bool_of_atom(p.atom), offset(p.hi), offset(p.lo))
    n = 0
    while isinstance(p, T) and p.op == 'after' and isinstance(p.args[0], T) and p.args[0].op == 'fread':
        s, dt, count = p.args[0].args
        c = as_num(count)
        if getattr(dt, 'const', None) not in WIDTH or c is None or c < 0:
            break
        n += WIDTH[dt.const]*int(c)
        p = s
    return add([op('at', p), C(n)]) if isinstance(p, T) else p


def n_items(b):
    if b.op == 'seq' and isinstance(b.args[0], Tup):
        return C(len(b.args[0].items))
    n = infer(b)[1]
    if n:
        r = ONE
        for i in range(n):
            r = mul(r, shape_index(b, C(i)))
        return r
    return size(b)


def fread(state, dt, count):
    """(value, next state)"""
    if state.op == 'bytes':
        if state.args:
            p = state.args[0]
            rest = op('bytes', *state.args[1:])
            if p.op == 'payload':
                b, order, pd = p.args
                n = n_items(b)
                c = as_num(count)
                if pd.fp == dt.fp:
                    val = None
                    if b.op == 'seq':
                        its = b.args[0].items
                        if c is not None and 0 <= c <= len(its):
                            val = op('seq', Tup('tuple', its[:int(c)]), head=None)
                            if c < len(its):
                                rest = op('bytes', op('payload', op('seq', Tup('tuple', its[int(c):]), head=None), order, pd), *state.args[1:])
                            if dt.const in ('int32', 'int64') and all(vglib.integral(i) for i in its):
                                return val, rest
                            return op('astype', val, dt, meta=dt.const), rest
                    whole = count.fp == n.fp or count.fp == size(b).fp or c == -1 and len(state.args) == 1
                    if whole:
                        v = b
                        if as_num(order) == 1:
                            v = op('numpy.transpose', v)
                        if infer(b) != ('arr', 1):
                            v = op('numpy.ravel', v)
                        return op('astype', v, dt, meta=dt.const if isinstance(dt.const, str) else None), rest
        d = op('misread', state, dt, count)
        return d, op('after', d)
    d = op('fread', state, dt, count)
    return d, op('after', d)


def put(st, interp, name, piece, mode='w'):
    k = ('file', name.fp)
    interp.files[name.fp] = name
    c = st.heap.get(k)
    if c is None:
        c = op('empty') if mode in ('w', 'x') else op('old', name)
    st.heap[k] = lift(lambda q: op('fwrite', q, piece), c)


def fresh_file(st, interp, name, piece):
    interp.files[name.fp] = name
    st.heap[('file', name.fp)] = op('fwrite', op('empty'), piece)


def call(interp, name, vals, kv, st):
    """value of a modelled library call, or None"""
    if name in ('open', 'io.open'):
        fn = toT(vals[0] if vals else kv.get('file', NONE))
        m = mode_of(vals, kv)
        s = op('stream', fn, meta=m)
        interp.files[fn.fp] = fn
        if m == 'r':
            st.heap[('pos', s.fp)] = start(st, interp, fn)
        elif m in ('w', 'x'):
            st.heap[('file', fn.fp)] = op('empty')
        elif m == 'a' and ('file', fn.fp) not in st.heap:
            st.heap[('file', fn.fp)] = op('old', fn)
        return s
    if name == 'next':
        if vals and is_stream(toT(vals[0])):
            return readop(interp, 'readline', toT(vals[0]), [], st)
        return None
    if name == 'numpy.fromfile':
        names = ['file', 'dtype', 'count', 'sep', 'offset']
        for n, v in zip(names, vals):
            kv[n] = v
        f = toT(kv['file'])
        dt, count = canon_dtype(kv.get('dtype')), toT(kv.get('count', C(-1)))
        if 'offset' in kv and as_num(toT(kv['offset'])) != 0 or 'sep' in kv and getattr(kv['sep'], 'const', None) != '':
            r = op('fread', op('seek', pos_of(st, f), toT(kv.get('offset', ZERO)), toT(kv.get('sep', C('')))), dt, count)
            return r
        if infer(f)[0] == 'str' or ('file', f.fp) in st.heap:
            s = start(st, interp, f)
            return lift(lambda q: fread(q, dt, count)[0], s)
        s = pos_of(st, f)
        r = lift(lambda q: Tup('pair', fread(q, dt, count)), s)
        st.heap[('pos', f.fp)] = lift(lambda p: p.items[1], r)
        return lift(lambda p: p.items[0], r)
    fam = name.split('.')[0]
    if fam in TAGS and name.split('.')[1] in ('dump', 'safe_dump'):
        x, f = toT(vals[0]), toT(vals[1] if len(vals) > 1 else kv.get('file', kv.get('stream', kv.get('fp', NONE))))
        if is_stream(f):
            put(st, interp, f.args[0], op(TAGS[fam], x), f.meta)
        return NONE
    if fam in TAGS:
        f = toT(vals[0])
        if not is_stream(f):
            return None
        s = pos_of(st, f)
        if isinstance(s, T) and s.op == 'bytes' and s.args and s.args[0].op == TAGS[fam]:
            st.heap[('pos', f.fp)] = op('bytes', *s.args[1:])
            return s.args[0].args[0]
        s = toT(s) if isinstance(s, T) else collapse(s)
        r = op('misread' if s.op == 'bytes' else name, s)
        st.heap[('pos', f.fp)] = op('after', r)
        return r
    if name in ('numpy.save', 'numpy.savetxt', 'numpy.savez', 'numpy.savez_compressed', 'astropy.io.fits.writeto'):
        fn = toT(vals[0])
        rest = [toT(v) for v in vals[1:]]
        if name == 'numpy.save':
            if is_stream(fn):
                put(st, interp, fn.args[0], op('npy', rest[0]), fn.meta)
                return NONE
            if isinstance(fn.const, str) and not fn.const.endswith('.npy'):
                fn = C(fn.const + '.npy')
            b, o, d, fl = peel(rest[0])
            fresh_file(st, interp, fn, op('npy', rest[0]))
        elif name == 'astropy.io.fits.writeto':
            hd = rest[1] if len(rest) > 1 else toT(kv.get('header', NONE))
            ov = kv.get('overwrite', rest[3] if len(rest) > 3 else C(False))
            fresh_file(st, interp, fn, op('fits', rest[0], hd, toT(ov)))
        else:
            ks = sorted(kv)
            fresh_file(st, interp, fn, op('npz' if 'savez' in name else 'text', *(rest + [toT(kv[k]) for k in ks]), meta=tuple(ks) or None))
        return NONE
    if name in ('numpy.load', 'astropy.io.fits.open', 'astropy.io.fits.getdata'):
        fn = toT(vals[0])
        c = st.heap.get(('file', fn.fp))
        p = chain(c) if isinstance(c, T) else None
        if not p:
            return None
        p = p[0]
        if name == 'numpy.load':
            return p.args[0] if p.op == 'npy' else op('misread', p)
        if p.op != 'fits':
            return op('misread', p)
        if name.endswith('getdata'):
            return p.args[0]
        return Tup('list', [op('hdu', p.args[0], p.args[1])])
    return None


def readop(interp, name, f, args, st):
    s = pos_of(st, f)
    s = collapse(s) if isinstance(s, G) else s
    if name == 'readlines':
        r = op('lines', s)
    else:
        r = op('f:' + name, s, *args)
    st.heap[('pos', f.fp)] = op('after', r)
    return r


def lines(f, st):
    s = pos_of(st, f)
    s = collapse(s) if isinstance(s, G) else s
    r = op('lines', s)
    st.heap[('pos', f.fp)] = op('after', r)
    return r


def method(interp, x, name, vals, kv, st):
    """value of a modelled method call, or None"""
    if name == 'tofile':
        f = toT(vals[0] if vals else kv.get('fid', NONE))
        p = payload(x)
        if 'sep' in kv or len(vals) > 1:
            p = op('text', *([toT(x)] + [toT(v) for v in vals[1:]] + [toT(kv[k]) for k in sorted(kv)]))
        if is_stream(f):
            put(st, interp, f.args[0], p, f.meta)
        elif infer(f)[0] == 'str':
            fresh_file(st, interp, f, p)
        else:
            put(st, interp, f, p, 'a')
        return NONE
    if name in WRITERS and vals:
        ks = sorted(kv)
        fresh_file(st, interp, toT(vals[0]), op(name, toT(x), *([toT(v) for v in vals[1:]] + [toT(kv[k]) for k in ks]), meta=tuple(ks) or None))
        return NONE
    if not is_stream(x):
        return None
    if name in ('write', 'writelines'):
        put(st, interp, x.args[0], op('text', toT(vals[0])), x.meta)
        return NONE
    if name in ('read', 'readline', 'readlines'):
        return readop(interp, name, x, [toT(v) for v in vals], st)
    if name == 'seek':
        n = toT(vals[0])
        w = toT(vals[1]) if len(vals) > 1 else ZERO
        s = pos_of(st, x)
        if as_num(w) == 0:
            s0 = start(st, interp, x.args[0]) if ('file', x.args[0].fp) in st.heap else op('start', x)
            st.heap[('pos', x.fp)] = s0 if as_num(n) == 0 else op('seek', s0, n)
        else:
            st.heap[('pos', x.fp)] = op('seek', collapse(s) if isinstance(s, G) else s, n, w)
        return NONE
    if name in ('close', 'flush', '__exit__'):
        return NONE
    if name == '__enter__':
        return x
    return None


def same_dims(items, b):
    """do the dims given describe array b's own shape"""
    n = infer(b)[1]
    if n is None or n != len(items):
        return False
    if b.fp in vglib.CUBIC and n == 3:
        r = op('numpy.round', power(n_items(b), C(Fraction(1, 3))))
        r2 = op('numpy.round', power(size(b), C(Fraction(1, 3))))
        if all(toT(i).fp in (r.fp, r2.fp, shape_index(b, ZERO).fp) for i in items):
            return True
    return all(toT(i).fp == shape_index(b, C(k)).fp for k, i in enumerate(items))


def reshape(x, s, order):
    """reshape with identities used when reading back what was flattened; None when no rule applies"""
    fort = isinstance(order, T) and isinstance(order.const, str) and order.const.lower() == 'f'
    if order is not None and not (isinstance(order, T) and isinstance(order.const, str) and order.const.lower() in ('c', 'f', 'a') or isinstance(order, T) and order.const is None):
        return None
    conv = []
    y = x
    while y.op == 'astype':
        conv.append(y)
        y = y.args[0]
    items = None
    if isinstance(s, T) and s.op == 'seq' and isinstance(s.args[0], Tup):
        items = list(s.args[0].items)
    elif isinstance(s, T) and s.op == 'shape' and infer(s.args[0])[1]:
        items = [shape_index(s.args[0], C(i)) for i in range(infer(s.args[0])[1])]
    if items is None:
        return None
    r = None
    if y.op == 'numpy.ravel' and len(y.args) == 1:
        b = y.args[0]
        if not fort and same_dims(items, b):
            r = b
        if fort and b.op == 'numpy.transpose' and len(b.args) == 1 and same_dims(items, b.args[0]):
            r = b.args[0]
        if not fort and b.op == 'numpy.transpose' and len(b.args) == 1 and same_dims(items[::-1], b.args[0]):
            r = b
    if r is None and fort and y.op in ('fread', 'numpy.ravel', 'misread') and len(items) > 1:
        r = op('numpy.transpose', op('numpy.reshape', y, op('seq', Tup('tuple', items[::-1]), head=None)))
    if r is None:
        return None
    turned = r.op == 'numpy.transpose' and len(r.args) == 1
    if turned:
        r = r.args[0]
    for c in reversed(conv):
        r = op('astype', r, *c.args[1:], meta=c.meta)
    return op('numpy.transpose', r) if turned else r
