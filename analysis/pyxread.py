"""Cython source read as Python: C declarations, C imports and argument types are removed, the statements are kept.

Whether `%` keeps Python's sign (the default) or C's is reported, because wrapping indices rely on it."""
import re

TYPE = r'(?:unsigned\s+)?(?:int|long|double|float|bint|char|short|object|tuple|list|dict|Py_ssize_t|size_t|(?:np|cnp|numpy)\.\w+(?:\[[^\]]*\])?|\w+_t|\w+(?:\[[:,\s]+\]))'
ARG = re.compile(r'^\s*' + TYPE + r'\s*\**\s+(\w+)\s*(=.*)?$', re.S)


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def header(m):
    ind, kw, name, args, tail = m.groups()
    new = []
    for a in split_args(args):
        t = ARG.match(a)
        b = (t.group(1) + (t.group(2) or '')) if t else a.strip()
        b = re.sub(r'\s+not\s+None', '', b)
        new.append(b.strip())
    return '%sdef %s(%s):' % (ind, name, ', '.join(new))


def to_python(text):
    """(python text, set of directives)"""
    flags = set()
    for k in ('cdivision', 'wraparound', 'boundscheck'):
        for m in re.finditer(k + r'\s*(?:=|\()\s*(True|False)', text):
            flags.add((k, m.group(1) == 'True'))
    text = re.sub(r'^([ \t]*)(def|cpdef|cdef)\s+(?:inline\s+)?(?:[\w.\[\], =]+?\s+)?(\w+)\s*\(((?:[^()]|\([^()]*\))*)\)\s*(?:noexcept\s*)?(?:nogil\s*)?(?:except[^:]*)?(->[^:]*)?:[ \t]*$', header, text, flags=re.M)
    out = []
    for l in text.split('\n'):
        s = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if re.match(r'(from\s+\S+\s+)?cimport\b', s) or s.startswith('@cython.') or s.startswith('ctypedef'):
            out.append('')
            continue
        m = re.match(r'cdef\s+' + TYPE + r'\s*\**\s+(.*)$', s)
        if m:
            keep = [p.strip() for p in split_args(m.group(1)) if '=' in p]
            out.append(ind + ('; '.join(keep) if keep else 'pass'))
            continue
        if s.startswith('with nogil') or s.startswith('with cython.'):
            l = ind + 'if True:'
        out.append(l)
    return '\n'.join(out), flags
