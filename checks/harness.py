"""Compositions of the package's own functions (specs/harness/*.py) evaluated to normal form and compared with what the composition must give.

A harness module is parsed next to the package's modules, so its imports resolve to the current source; it is never run.
"""
import os
from analysis.loader import Project
from analysis.compare import Spec, find, guarded, evaluate, pairs, judge, describe, atoms_of, case_label
from analysis import fileio

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_P = {}


def project(name):
    if name not in _P:
        with open(os.path.join(HERE, 'specs', 'harness', name + '.py'), encoding='utf-8') as f:
            _P[name] = Project(extra={'vt_' + name: f.read()})
    return _P[name]


def anchor(P, mod, g):
    """the package function the composition calls last, for the report"""
    import ast
    names = [n.func.id for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)]
    for n in names:
        b = P.lookup(g.module, n, g)
        if b and b[0] == 'func':
            return b[1].where, b[1].node.lineno
        if b and b[0] == 'class':
            c = b[1]
            return '%s.py:%s' % (c.module.name, c.name), c.node.lineno
    return '%s' % g.where, 0


def one(P, mod, name, types, cases, rule, R, io=False, extra_heads=(), opaque=(), limit=40):
    q = 'vt_%s.' % mod
    g, w = find(P, q + 'got_' + name), find(P, q + 'want_' + name)
    sp = Spec(g.qual, types, cases, opaque=opaque, limit=limit)
    for case in cases or [{}]:
        label = '%s%s' % (name, case_label(case))
        out = []
        for f in (w, g):
            def ev():
                v, I = evaluate(P, f, sp, case, keep_float=io)
                return v, I
            r, why = guarded(sp.limit, ev)
            if r is None:
                out = None
                R.skip(label, why)
                break
            out.append(r)
        if out is None:
            continue
        (ref, _), (cur, I) = out
        if cur.fp == ref.fp:
            R.ok(label)
            continue
        ra = atoms_of(ref)
        why = 'difference not located'
        for path, x, y in pairs(cur, ref) or ():
            why = judge(path, x, y, ref, ra, known=(fileio.HEADS if io else set()) | set(extra_heads))
            if why is None:
                msg, src = describe(path, x, y)
                where, line = anchor(P, mod, g)
                if src and src[1] and not str(src[0]).startswith('vt_'):
                    line = src[1]
                R.bad(rule, where, label, '%s: %s' % (label, msg), line)
                break
        if why is not None:
            R.skip(label, why)
