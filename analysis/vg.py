"""Gated value-graph construction: abstract evaluation of syntax trees into terms (analysis/terms.py).

No package code runs.  A function is translated to the term of its outcome (value returned, or the fact that
it raises, under the atomic conditions that select it).  Loops become maps, sums, scatters or folds; helper
functions of the package are expanded in place; library calls are uninterpreted except for the algebra and
argument conventions listed in analysis/vglib.py.
"""
import ast
from fractions import Fraction
from .terms import *
from . import terms
from .loader import own_walk, AnalysisError, bind_args
from . import vglib, fileio
from .terms import PHF

UNROLL = 16


def part_keys(x):
    return list(x.keys) if x.kind == 'dict' else [C(i) for i in range(len(x.items))]


def has_parts(x):
    return isinstance(x, Tup) and (x.kind == 'list' or x.kind == 'dict' and all(i.const is not NOC for i in x.keys))


def part_shape(x):
    return Tup('shape', part_keys(x)) if has_parts(x) else Tup('noshape', ())


EVAL_STRING = {'eval', 'numexpr.evaluate'}


# functions that fill in one of their arguments (its position) and return nothing
INPLACE = {'radio_telescope_calibration._grid_uv_tracks_with_gains': 2, 'radio_telescope_calibration._grid_uv_tracks_with_antenna_stamp': 2,
           'radio_telescope_calibration._grid_uv_lagrangian_tracks_with_antenna_stamp': 2}


class Frame:
    n = 0

    def __init__(self, func, module, node, parent=None):
        Frame.n += 1
        self.id = Frame.n
        self.func, self.module, self.node, self.parent = func, module, node, parent
        self.returns, self.raises, self.loops = [], [], []
        self.base = TRUE
        self.unset = set()      # names read where they may not have been assigned yet
        self.globals_ = set()
        self.locals = local_names(node) if node is not None else set()
        if node is not None and not isinstance(node, ast.Lambda):
            for s in own_walk(node):
                if isinstance(s, ast.Global):
                    self.globals_ |= set(s.names)
                if isinstance(s, ast.Nonlocal):
                    self.locals -= set(s.names)
        self.locals -= self.globals_


_ln = {}


def local_names(node):
    r = _ln.get(id(node))
    if r is not None and r[0] is node:
        return set(r[1])
    out = set()
    a = getattr(node, 'args', None)
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                out.add(x.arg)
    if not isinstance(node, ast.Lambda):
        for s in own_walk(node):
            if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
                out.add(s.id)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, ast.ExceptHandler) and s.name:
                out.add(s.name)
    _ln[id(node)] = (node, frozenset(out))
    return out


class State:
    __slots__ = ('frames', 'heap', 'pc')

    def __init__(self, frames, heap, pc):
        self.frames, self.heap, self.pc = frames, heap, pc

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap), self.pc)

    def become(self, o):
        self.frames, self.heap, self.pc = o.frames, o.heap, o.pc

    @property
    def dead(self):
        return self.pc.const is False


_cell = [0]


def newcell(st, v):
    _cell[0] += 1
    st.heap[_cell[0]] = v
    return _cell[0]


def merge(c, s1, s2):
    """state that is s1 where c holds and s2 elsewhere"""
    if s1.dead:
        return s2
    if s2.dead:
        return s1
    out = State({}, {}, bor(s1.pc, s2.pc))
    h = dict(s2.heap)
    for k, v in s1.heap.items():
        w = s2.heap.get(k)
        if w is None:
            h[k] = v
        elif w is not v and w.fp != v.fp:
            h[k] = ite(c, v, w)
    out.heap = h
    memo = {}
    for fid in set(s1.frames) | set(s2.frames):
        e1, e2 = s1.frames.get(fid), s2.frames.get(fid)
        if e1 is None or e2 is None:
            out.frames[fid] = dict(e1 if e2 is None else e2)
            continue
        env = {}
        for n in set(e1) | set(e2):
            c1, c2 = e1.get(n), e2.get(n)
            if c1 == c2:
                env[n] = c1
                continue
            k = (c1, c2)
            if k not in memo:
                v1 = s1.heap[c1] if c1 is not None else UNBOUND
                v2 = s2.heap[c2] if c2 is not None else UNBOUND
                memo[k] = newcell(out, ite(c, v1, v2))
            env[n] = memo[k]
        out.frames[fid] = env
    return out


IGNORED_CALLS = {'print', 'warnings.warn', 'sys.stdout.write', 'sys.stdout.flush', 'gc.collect', 'warnings.filterwarnings',
                 'warnings.simplefilter', 'numpy.seterr', 'time.sleep', 'sys.stderr.write'}
IGNORED_REPO = {'helper_functions.print_msg', 'helper_functions.loading_verbose', 'helper_functions.flush_msg',
                'helper_functions.set_verbose'}
NEVER_INLINE = {'read_files.read_c2ray_files'}


def infer_any(v):
    return vglib.infer(v) if isinstance(v, T) else (None, None)


def array_type(v):
    """kind and number of dimensions of an array, the same in every case of v"""
    if isinstance(v, G):
        a, b = array_type(v.hi), array_type(v.lo)
        return a if a == b else None
    t = infer_any(v)
    return t if t[0] == 'arr' and t[1] is not None else None


class Interp:
    def __init__(self, P, opaque=(), maxdepth=14, budget=60000, allow_effects=True):
        self.P = P
        self.opaque = set(opaque)
        self.maxdepth = maxdepth
        self.budget = budget
        self.stack = []
        self.steps = 0
        self.inlined = set()
        self.consulted = set()
        vglib.CURRENT[0] = self

    # -- entry -------------------------------------------------------------------------
    def outcome(self, f, assume=None, rename=None, fields=False, types=None, keep_float=False):
        """Val for the call of f on symbolic parameters.  With fields=True: Tup(value, fields of self at exit)."""
        self.steps = 0
        vglib.TYPES.clear()
        vglib._MEMO.clear()
        vglib.CUBIC.clear()
        vglib.DIMS.clear()
        self.files = {}
        self.shared = {}
        fileio.KEEP[0] = keep_float
        for n, ty in (types or {}).items():
            if ty[0] == 'cube':
                ty = ('arr', 3)
                vglib.CUBIC.add(leaf('param', n).fp)
            if ty[0] == 'vec':
                ty = ('arr', 4)
                vglib.DIMS[leaf('param', n).fp, 0] = C(3)
            vglib.TYPES[leaf('param', n).fp] = ty
        st = State({}, {('rng',): leaf('rng')}, TRUE)
        assume = assume or {}
        mapping = {}
        for p in f.params:
            if p == f.self_name:
                mapping[p] = Obj(f.cls, leaf('param', 'self'), {})
                if f.name == '__init__':
                    mapping[p] = Obj(f.cls, None, {})
            elif p == f.vararg and p not in assume:
                mapping[p] = leaf('param', '*' + p) if types is None else Tup('tuple', ())
            elif p == f.kwarg and p not in assume:
                mapping[p] = leaf('param', '**' + p) if types is None else Tup('dict', (), ())
            else:
                q = (rename or {}).get(p, p)
                if p in assume:
                    a = assume[p]
                    mapping[p] = C(a) if not isinstance(a, (T, Tup, Obj, Fn, G)) else a
                else:
                    mapping[p] = leaf('param', q)
        self.consulted.add(f.qual)
        fr = Frame(f, f.module, f.node)
        st.frames[fr.id] = {}
        for p, v in mapping.items():
            st.frames[fr.id][p] = newcell(st, v)
        cells = [(st.frames[fr.id][p], mapping[p]) for p in f.params]
        selfcell = st.frames[fr.id].get(f.self_name) if f.self_name else None
        self.stack.append(f)
        try:
            val, end, rc = self.run_body(fr, f.node, st)
        finally:
            self.stack.pop()
        self.end_state = end
        if end is not None and any(isinstance(v, Fn) for v in leaves(val)):
            val = lift(lambda v: self.lam(v, end, fr) if isinstance(v, Fn) else v, val)
        if not fields and end is not None and isinstance(val, T) and val.const is None:
            # a function that returns nothing is there for what it does to its arguments
            changed = [end.heap[c] for c, v in cells if c in end.heap and end.heap[c].fp != v.fp]
            if changed:
                val = Tup('tuple', [val] + changed)
        if fields and selfcell is not None:
            if end is None:
                return RAISE
            val = Tup('tuple', (val if f.name != '__init__' else NONE, end.heap[selfcell]))
            ps = [end.heap['pos', leaf('param', p).fp] for p in f.params if ('pos', leaf('param', p).fp) in end.heap]
            if ps:      # where a file that was handed over is left
                val = Tup('tuple', val.items + tuple(fileio.offset(p) for p in ps))
        if fields == 'globals':
            g = {k: v for k, v in end.heap.items() if isinstance(k, tuple) and k[0] == 'g'} if end is not None else {}
            ks = sorted(g)
            val = Tup('tuple', (val, Tup('dict', [g[k] for k in ks], [C('.'.join(k[1:])) for k in ks])))
        if fields == 'shared':
            val = Tup('tuple', [val] + [end.heap[c] for k, c in sorted(self.shared.items()) if end is not None and c in end.heap])
        if fields == 'disk':
            d = {k[1]: v for k, v in end.heap.items() if isinstance(k, tuple) and k[0] == 'file'} if end is not None else {}
            ks = sorted(d)
            val = Tup('tuple', [val] + [Tup('tuple', (op('file', self.files[k]), d[k])) for k in ks])
        return ite(rc, RAISE, val)

    def run_body(self, fr, node, st, keep=False):
        """execute a function body; returns (value, state or None, raise condition); st.pc is local (TRUE at entry)"""
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, st, fr)
            rc = FALSE
            for p in fr.raises:
                rc = bor(rc, p)
            return v, st, rc
        self.block(node.body, st, fr)
        recs = list(fr.returns)
        if not st.dead:
            recs.append((st.pc, NONE, st))
        rc = FALSE
        for p in fr.raises:
            rc = bor(rc, p)
        if not recs:
            return NONE, None, rc
        val, end = recs[-1][1], recs[-1][2]
        for pc, v, s in reversed(recs[:-1]):
            val = ite(pc, v, val)
            end = merge(pc, s, end)
        return val, end, rc

    # -- statements --------------------------------------------------------------------
    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st, fr)

    def tick(self, n, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided('analysis budget exceeded')
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            terms.CUR[0], terms.CUR[1] = fr.module.name, ln

    def stmt(self, s, st, fr):
        self.tick(s, fr)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        m(s, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fr.id].pop(t.id, None)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Assign(self, s, st, fr):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name):
            c = self.cell_of(s.value.id, st, fr)
            if c is not None and s.targets[0].id not in fr.globals_:
                if not isinstance(st.heap[c], (Fn,)):
                    st.frames[fr.id][s.targets[0].id] = c
                    return
        v = self.ev(s.value, st, fr)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        load = as_load(s.target)
        cur = self.ev(load, st, fr)
        v = self.ev(s.value, st, fr)
        if isinstance(s.op, ast.Add) and isinstance(cur, Tup) and cur.kind == 'list':
            r = self.seq_extend(cur, v)
        else:
            r = lift(lambda a, b: self.binop(s.op, a, b), cur, v)
        self.assign(s.target, r, st, fr)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        if st.dead:
            return
        fr.returns.append((st.pc, v, st.copy()))
        st.pc = FALSE

    def s_Raise(self, s, st, fr):
        fr.raises.append(st.pc)
        st.pc = FALSE

    def s_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr))
        fr.raises.append(band(st.pc, bnot(c)))
        st.pc = band(st.pc, c)

    def s_FunctionDef(self, s, st, fr):
        f = fr.func.nested.get(s.name) if fr.func is not None else None
        st.frames[fr.id][s.name] = newcell(st, Fn(func=f, node=s, env=fr.id, frame=fr, module=fr.module))

    def s_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr))
        if st.dead:
            return
        self.branch(c, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr), st, fr)

    def file_call(self, name, vals, kv, st, fr, depth=0):
        """a modelled file operation, decided separately for each case of its arguments"""
        gs = [v for v in list(vals) + list(kv.values()) if isinstance(v, G)]
        if not gs or depth > 4:
            return fileio.call(self, name, [collapse(v) if isinstance(v, G) else v for v in vals], {k: collapse(v) if isinstance(v, G) else v for k, v in kv.items()}, st)
        a = min((g.atom for g in gs), key=lambda a: a.key)
        out = {}

        def run(b):
            def f(x):
                out[b] = self.file_call(name, [cof(v, a, b) for v in vals], {k: cof(v, a, b) for k, v in kv.items()}, x, fr, depth + 1)
            return f
        self.branch(bool_of_atom(a), run(True), run(False), st, fr)
        if any(v is None for v in out.values()):
            return None
        if len(out) == 1:
            return list(out.values())[0]
        return ite(bool_of_atom(a), out[True], out[False])

    def branch(self, c, f1, f2, st, fr):
        tot = band(fr.base, st.pc)
        t1, t2 = band(tot, c), band(tot, bnot(c))
        if t2.const is False:
            f1(st)
            return
        if t1.const is False:
            f2(st)
            return
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
        f1(s1)
        f2(s2)
        st.become(merge(c, s1, s2))

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        s0 = st.copy()
        s0.pc = st.pc
        nr = len(fr.raises)
        sb = st.copy()
        self.block(s.body, sb, fr)
        inner = fr.raises[nr:]
        del fr.raises[nr:]
        explicit = FALSE
        for p in inner:
            explicit = bor(explicit, p)
        if not sb.dead:
            self.block(s.orelse, sb, fr)
        fps = self.risky(sb, s0, [v for p, v, _ in fr.returns])
        exc = bool_of_atom(Atom('exc', T('exc', (), H('exc', *sorted(set(fps)))), ''))
        if self.folded(s.body, sb, s0, fr):
            exc = FALSE
        if inner:
            exc = bor(exc, explicit)
        if s.handlers and exc.const is not False:
            # handlers in order, chosen by the (opaque) exception type
            def run_h(hs, x):
                h = hs[0]
                if h.name:
                    x.frames[fr.id][h.name] = newcell(x, leaf('exception'))
                if len(hs) == 1:
                    self.block(h.body, x, fr)
                    return
                a = bool_of_atom(Atom('exctype', T('exct', (), H('exct', ast.dump(h.type) if h.type is not None else '')), ''))
                self.branch(a, lambda y: self.block(h.body, y, fr), lambda y: run_h(hs[1:], y), x, fr)
            sh = s0
            sh.pc = band(st.pc, exc)
            run_h(s.handlers, sh)
            if not sb.dead:
                sb.pc = band(sb.pc, bnot(exc))
            st.become(merge(exc, sh, sb))
        else:
            if not s.handlers:
                fr.raises.extend(inner)
            st.become(sb)
        if s.finalbody:
            if not st.dead:
                self.block(s.finalbody, st, fr)

    def risky(self, sb, s0, extra):
        """what the statements computed, without intermediate results: names the event 'this raised'"""
        tops = []

        def changed(v, w):
            if w is not None and w.fp == v.fp:
                return
            if isinstance(v, Obj):
                for k, q in v.fields.items():
                    changed(q, w.fields.get(k) if isinstance(w, Obj) else None)
            elif isinstance(v, Tup):
                for q in v.items:
                    changed(q, None)
            else:
                tops.append(v)
        for k, v in sb.heap.items():
            changed(v, s0.heap.get(k))
        for v in extra:
            changed(v, None)
        below = set()
        seen = set()

        def walk(t):
            if isinstance(t, G):
                ks = [t.atom.subj, t.hi, t.lo]
            elif isinstance(t, Tup):
                ks = list(t.items)
            elif isinstance(t, Obj):
                ks = list(t.fields.values()) + ([t.base] if t.base is not None else [])
            else:
                ks = list(t.args) if isinstance(t, T) else []
            if isinstance(t, T) and t.op == 'index' and isinstance(t.args[1], Tup):
                its = t.args[1].items
                below.update(op('index', t.args[0], Tup('tuple', its[:n]) if n > 1 else its[0]).fp for n in range(1, len(its)))
            for a in ks:
                below.add(a.fp)
                if a.fp not in seen:
                    seen.add(a.fp)
                    walk(a)
        for t in tops:
            if t.fp not in seen:
                seen.add(t.fp)
                walk(t)
        out = set()
        for t in tops:
            if t.fp in below or (isinstance(t, T) and (t.const is not NOC or t.op == 'mod')):
                continue
            out.add(t.fp)
        return out

    def folded(self, body, sb, s0, fr):
        """the statements only computed constants, so they cannot have raised beyond what is recorded"""
        if sb.dead or fr.returns:
            return False
        for s in body:
            if isinstance(s, ast.Import) and all(a.name.split('.')[0] in ('os', 'sys', 're', 'math') for a in s.names):
                continue
            if not isinstance(s, (ast.Assign, ast.If, ast.Expr)):
                return False

        def const(v, w):
            if isinstance(v, Obj) and isinstance(w, Obj):
                return all(k in w.fields and w.fields[k].fp == q.fp or const(q, None) for k, q in v.fields.items())
            if isinstance(v, Tup):
                return all(const(i, None) for i in v.items)
            return isinstance(v, T) and v.const is not NOC
        for k, v in sb.heap.items():
            w = s0.heap.get(k)
            if w is not None and w.fp == v.fp:
                continue
            if not const(v, w):
                return False
        return True

    def s_Break(self, s, st, fr):
        if not fr.loops:
            raise Undecided('break outside loop')
        fr.loops[-1]['breaks'].append((st.pc, st.copy()))
        st.pc = FALSE

    def s_Continue(self, s, st, fr):
        fr.loops[-1]['conts'].append((st.pc, st.copy()))
        st.pc = FALSE

    # -- loops -------------------------------------------------------------------------
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        if isinstance(it, T) and it.op == 'stream':
            it = fileio.lines(it, st)
        self.for_over(it, s, st, fr)
        if s.orelse and not st.dead:
            if any(isinstance(n, ast.Break) for n in own_walk(s.body)):
                raise Undecided('for/else with break')
            self.block(s.orelse, st, fr)

    def for_over(self, it, s, st, fr):
        if isinstance(it, G):
            a = it.atom
            self.branch(bool_of_atom(a), lambda x: self.for_over(it.hi, s, x, fr), lambda x: self.for_over(it.lo, s, x, fr), st, fr)
            return
        d = self.iter_desc(it)
        if d[0] == 'unroll':
            exits = []
            outer = st.pc
            for item in d[1]:
                if st.dead:
                    break
                fr.loops.append({'breaks': [], 'conts': []})
                self.assign(s.target, item, st, fr)
                self.block(s.body, st, fr)
                ctx = fr.loops.pop()
                for pc, x in ctx['conts']:
                    st.become(merge(pc, x, st))
                exits += ctx['breaks']
            for pc, x in exits:
                st.become(merge(pc, x, st))
            return
        _, count, elem = d
        idx = fresh()

        def body(x):
            self.assign(s.target, elem(idx), x, fr)
            self.block(s.body, x, fr)
        names = {n.id for t in [s.target] + list(s.body) for n in ([t] + list(own_walk(t))) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.loop(count, idx, body, names, st, fr, target=target_names(s.target))

    def s_While(self, s, st, fr):
        if s.orelse:
            raise Undecided('while/else')
        # unroll is impossible: general fold with a continuation condition
        idx = fresh()
        names = {n.id for t in s.body for n in ([t] + list(own_walk(t))) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

        def body(x):
            c = self.truth(self.ev(s.test, x, fr))
            self.whilecond = c
            if c.const is not True:
                y = x.copy()
                y.pc = band(x.pc, bnot(c))
                if not y.dead:
                    fr.loops[-1]['breaks'].append((y.pc, y))
                x.pc = band(x.pc, c)
            if not x.dead:
                self.block(s.body, x, fr)
        self.loop(None, idx, body, names, st, fr)

    def loop(self, count, idx, body, names, st, fr, target=()):
        if count is not None and isinstance(count, G):
            a = count.atom
            self.branch(bool_of_atom(a), lambda x: self.loop(count.hi, idx, body, names, x, fr, target),
                        lambda x: self.loop(count.lo, idx, body, names, x, fr, target), st, fr)
            return
        if count is not None and as_num(count) is not None and as_num(count) <= 0:
            return
        env0 = st.frames[fr.id]
        pre_cells = set(st.heap)
        phs = {}        # key -> ph ; key = ('n', name) or ('c', cell)
        for n in names:
            if n in env0 and n not in fr.globals_:
                phs[('n', n)] = fresh()
        for n in names & fr.globals_:
            phs[('c', ('g', fr.module.name, n))] = fresh()
        parts = {}      # cell -> start value, for cells tracked element by element
        for rnd in range(12):
            sb = st.copy()
            sb.pc = TRUE
            fr2base, fr.base = fr.base, band(fr.base, st.pc)
            unset, fr.unset = fr.unset, set()
            marks = (len(fr.returns), len(fr.raises))
            for k, ph in phs.items():
                if k[0] == 'n':
                    # cells shared with other names keep their identity for in-place updates
                    sb.frames[fr.id][k[1]] = newcell(sb, self.wrap_like(ph, st.heap.get(env0.get(k[1]))))
                elif k[0] == 'c':
                    sb.heap[k[1]] = self.wrap_like(ph, st.heap.get(k[1]))
            for c, v in parts.items():
                sb.heap[c] = lift(lambda x: Tup(x.kind, [phs['d', c, i.fp] for i in part_keys(x)], x.keys), v)
            start = dict(sb.heap)
            startenv = dict(sb.frames[fr.id])
            fr.loops.append({'breaks': [], 'conts': []})
            body(sb)
            ctx = fr.loops.pop()
            fr.base = fr2base
            rets = fr.returns[marks[0]:]
            rses = fr.raises[marks[1]:]
            del fr.returns[marks[0]:], fr.raises[marks[1]:]
            ends = list(ctx['conts'])
            if not sb.dead:
                ends.append((sb.pc, sb))
            exits = list(ctx['breaks'])
            # newly mutated cells
            allst = [x for _, x in ends + exits] + [x for _, _, x in rets]
            new = set()
            for x in allst:
                for c in pre_cells:
                    if ('c', c) in phs:
                        continue
                    v = x.heap.get(c)
                    if v is not None and c in parts:
                        if lift(part_shape, v).fp != lift(part_shape, parts[c]).fp:
                            new.add(c)
                    elif v is not None and v.fp != start[c].fp:
                        new.add(c)
            # names first assigned in an earlier pass are carried like the others
            late = {n for n in fr.unset if n in names and n not in env0 and n not in fr.globals_ and ('n', n) not in phs and n not in target
                    and any(n in x.frames[fr.id] for _, x in ends)}
            fr.unset |= unset
            for n in late:
                phs[('n', n)] = fresh()
            if not new and not late:
                break
            for c in new:
                if c in parts:
                    for k in [k for k in phs if k[0] == 'd' and k[1] == c]:
                        del phs[k]
                    del parts[c]
                elif all(has_parts(x) for x in leaves(start[c])) and any(x.items for x in leaves(start[c])):
                    parts[c] = st.heap[c]
                    for x in leaves(start[c]):
                        for i in part_keys(x):
                            phs.setdefault(('d', c, i.fp), fresh())
                    continue
                phs[('c', c)] = fresh()
                ty = array_type(start[c])
                if ty is not None and all(array_type(x.heap[c]) == ty for x in allst if c in x.heap):
                    vglib.TYPES[phs['c', c].fp] = ty
        else:
            raise Undecided('loop state does not stabilise')

        def val_at(x, k):
            if k[0] == 'n':
                c = x.frames[fr.id].get(k[1])
                return x.heap[c] if c is not None else UNBOUND
            if k[0] == 'd':
                return lift(lambda t: next((v for i, v in zip(part_keys(t), t.items) if i.fp == k[2]), UNBOUND), x.heap[k[1]])
            return x.heap[k[1]]

        def chain(recs, k):
            v = val_at(recs[-1][1], k)
            for pc, x in reversed(recs[:-1]):
                v = ite(pc, val_at(x, k), v)
            return v
        keys = list(phs)
        # variables created in the loop
        newnames = [n for n in names if ('n', n) not in phs and n not in fr.globals_]
        init = {k: val_at(st, k) for k in keys}
        exitrecs = [(pc, 'break', NONE, x) for pc, x in exits] + [(pc, 'return', v, x) for pc, v, x in rets] + [(pc, 'raise', NONE, None) for pc in rses]
        upd = {}
        if ends:
            for k in keys:
                upd[k] = chain(ends, k)
        else:
            for k in keys:
                upd[k] = phs[k]
        for n in newnames:
            if ends:
                upd[('n', n)] = chain(ends, ('n', n))
                init[('n', n)] = UNBOUND
                phs[('n', n)] = fresh()
        uids = {ph.meta[0]: k for k, ph in phs.items()}
        if not exitrecs:
            out = self.close_loop(count, idx, phs, init, upd)
        else:
            xpc = FALSE
            for r in exitrecs:
                xpc = bor(xpc, r[0])
            simple = None
            if count is None and len(exitrecs) == 1 and exits and self.counted(exitrecs[0], phs, init, upd):
                count2, = self.counted(exitrecs[0], phs, init, upd)
                # at exit the state equals the state after the last full iteration
                same = all(val_at(exitrecs[0][3], k).fp == self.wrap_like(phs[k], init[k]).fp for k in keys)
                if same:
                    out = self.close_loop(count2, idx, phs, init, upd)
                    simple = True
            if not simple:
                count, going, exitrecs = self.while_count(count, exitrecs, phs, init, upd, val_at, keys)
                xpc = FALSE
                for r in exitrecs:
                    xpc = bor(xpc, r[0])
                sysk = list(phs)
                exitv = {}
                for k in sysk:
                    v = phs[k]
                    for pc, kind, rv, x in exitrecs:
                        if kind == 'break':
                            vv = val_at(x, k) if not (k[0] == 'n' and k[1] not in x.frames[fr.id]) else UNBOUND
                            v = ite(pc, vv, v)
                    exitv[k] = v
                rv = NONE
                retpc = raisepc = FALSE
                for pc, kind, v, x in exitrecs:
                    if kind == 'return':
                        rv = ite(pc, v, rv)
                        retpc = bor(retpc, pc)
                    if kind == 'raise':
                        raisepc = bor(raisepc, pc)
                outs = dict(exitv)
                outs[('ret',)] = rv
                outs[('retpc',)] = retpc
                outs[('raisepc',)] = raisepc
                if going is not None:
                    xpc = cof(xpc, going, True)
                    upd = {k: cof(v, going, True) for k, v in upd.items()}
                    outs = {k: cof(v, going, True) for k, v in outs.items()}
                    xpc, upd, outs = self.induct(xpc, idx, phs, init, upd, outs)
                    raisepc, retpc = outs[('raisepc',)], outs[('retpc',)]
                res = self.fold_exit(count, idx, phs, init, upd, xpc, outs)
                out = {k: res[k] for k in sysk}
                if raisepc.const is not False:
                    a = self.truth(res[('raisepc',)])
                    fr.raises.append(band(st.pc, a))
                    st.pc = band(st.pc, bnot(a))
                if retpc.const is not False:
                    a = self.truth(res[('retpc',)])
                    fr.returns.append((band(st.pc, a), res[('ret',)], st.copy()))
                    st.pc = band(st.pc, bnot(a))
        env = st.frames[fr.id]
        for c, w in parts.items():
            def whole(x):
                if isinstance(x, G):
                    return ite(bool_of_atom(x.atom), whole(x.hi), whole(x.lo))
                return lift(lambda *v: Tup(x.kind, v, x.keys), *[out.get(('d', c, i.fp), UNBOUND) for i in part_keys(x)])
            st.heap[c] = whole(w)
        for k, v in out.items():
            if k[0] == 'd':
                continue
            if isinstance(v, T) and phs[k].fp in vglib.TYPES and infer_any(v)[0] is None:
                vglib.TYPES[v.fp] = vglib.TYPES[phs[k].fp]
            if k[0] == 'n':
                if k[1] in env0 and ('c', env0[k[1]]) in phs and v.fp == init.get(k, UNBOUND).fp:
                    continue
                if k in init and v.fp == init[k].fp:
                    continue
                env[k[1]] = newcell(st, v)
            else:
                st.heap[k[1]] = v

    def while_count(self, count, exitrecs, phs, init, upd, val_at, keys):
        """`while i < n` with other ways out: the counter test becomes the number of
        iterations and only the other exits remain"""
        for r in exitrecs if count is None else ():
            if r[1] != 'break':
                continue
            c = self.counted(r, phs, init, upd)
            if c and all(val_at(r[3], k).fp == self.wrap_like(phs[k], init[k]).fp for k in keys):
                return c[0], r[0].atom, [q for q in exitrecs if q is not r]
        return count, None, exitrecs

    def induct(self, xpc, idx, phs, init, upd, outs):
        """counters (i += e) are written in terms of the iteration number"""
        bad = {p.meta[0] for p in phs.values()} | set(idx.phs)
        m = {}
        for k, u in upd.items():
            if isinstance(u, T) and isinstance(init[k], T) and u.op == '+' and phs[k].meta[0] in u.phs:
                e = sub(u, phs[k])
                if not (e.phs & bad):
                    m[k] = add([init[k], mul(idx, e)])
        if not m:
            return xpc, upd, outs
        sm = {phs[k].fp: v for k, v in m.items()}
        return subst(xpc, sm, self), {k: u if k in m else subst(u, sm, self) for k, u in upd.items()}, {k: o if k in m else subst(o, sm, self) for k, o in outs.items()}

    def wrap_like(self, ph, v):
        if isinstance(v, Obj):
            return Obj(v.cls, ph, {})
        return ph

    def counted(self, rec, phs, init, upd):
        """while i < n with i += step: number of iterations"""
        pc = rec[0]
        if not isinstance(pc, G) or pc.atom.kind != 'pos' or isinstance(pc.hi, G) or isinstance(pc.lo, G) or pc.lo.const is not True:
            return None
        d = pc.atom.subj
        hit = [k for k, ph in phs.items() if ph.meta[0] in d.phs]
        if len(hit) != 1:
            return None
        k = hit[0]
        ph = phs[k]
        u = upd[k]
        if not isinstance(u, T):
            return None
        step = sub(u, ph)
        if as_num(step) is None or as_num(step) <= 0:
            return None
        n = add([d, ph])       # d = n - i
        if n.phs & d.phs - frozenset():
            if ph.meta[0] in n.phs:
                return None
        cnt = sub(n, init[k]) if isinstance(init[k], T) else None
        if cnt is None:
            return None
        if as_num(step) != 1:
            return (vglib.ceil(div(cnt, step)),)
        return (cnt,)

    def close_loop(self, count, idx, phs, init, upd):
        """values after `count` iterations"""
        if count is None:
            raise Undecided('loop without exit')
        # unchanged variables
        uid = {ph.meta[0]: k for k, ph in phs.items()}
        out = {}
        live = {}
        for k, u in upd.items():
            if u.fp == phs[k].fp or (isinstance(u, Obj) and u.fp == phs[k].fp):
                out[k] = init[k]
            else:
                live[k] = u
        m = {phs[k].fp: init[k] for k in out}
        if m:
            live = {k: subst(u, m, self) for k, u in live.items()}
        # inductions: u = ph + e, e invariant
        changed = True
        indep = set(idx.phs)
        loopph = set(uid)
        ind = {}
        while changed:
            changed = False
            for k, u in list(live.items()):
                if k in ind:
                    continue
                if isinstance(u, T) and isinstance(init[k], T) and phs[k].meta[0] in u.phs and u.op in ('+',):
                    e = sub(u, phs[k])
                    if not (e.phs & (loopph | indep)):
                        ind[k] = e
                        mm = {phs[k].fp: add([init[k], mul(idx, e)])}
                        for k2 in live:
                            if k2 != k and phs[k].meta[0] in live[k2].phs:
                                live[k2] = subst(live[k2], mm, self)
                        out[k] = add([init[k], mul(count, e)])
                        changed = True
        for k in ind:
            live.pop(k)
        # values defined afresh in each iteration: no carried placeholder needed
        for k, u in live.items():
            out[k] = self.close_var(count, idx, phs, init, live, k, loopph)
        return out

    def close_var(self, count, idx, phs, init, live, k, loopph, depth=0):
        u = live[k]
        # hoist loop-invariant conditions
        sysk = self.slice_of(phs, live, k)
        if depth < 7:
            a = self.invariant_atom([live[j] for j in sysk], loopph | set(idx.phs))
            if a is not None:
                hi = self.close_var(count, idx, phs, {j: cof(init[j], a, True) for j in init}, {j: cof(live[j], a, True) for j in live}, k, loopph, depth + 1)
                lo = self.close_var(count, idx, phs, {j: cof(init[j], a, False) for j in init}, {j: cof(live[j], a, False) for j in live}, k, loopph, depth + 1)
                return ite(bool_of_atom(a), hi, lo)
        me = phs[k].meta[0]
        others = (u.phs & loopph) - {me}
        if me not in u.phs and not others:
            if not (u.phs & idx.phs):
                return u
            return bind1('last', count, idx, u, self)
        if not others:
            r = self.pattern(count, idx, phs[k], init[k], u)
            if r is not None:
                return r
        return self.fold(count, idx, phs, init, live, sysk, k)

    def slice_of(self, phs, live, k):
        byuid = {ph.meta[0]: j for j, ph in phs.items()}
        seen, todo = [], [k]
        while todo:
            j = todo.pop()
            if j in seen or j not in live:
                continue
            seen.append(j)
            for x in live[j].phs:
                if x in byuid:
                    todo.append(byuid[x])
        return seen

    def invariant_atom(self, vals, bad):
        seen = set()

        def go(v):
            if not isinstance(v, G) or v.fp in seen:
                return None
            seen.add(v.fp)
            if not (v.atom.subj.phs & bad):
                return v.atom
            return go(v.hi) or go(v.lo)
        for v in vals:
            if isinstance(v, Obj):
                for x in v.fields.values():
                    r = go(x)
                    if r is not None:
                        return r
            r = go(v)
            if r is not None:
                return r
        return None

    def pattern(self, count, idx, ph, init, u):
        """sum, append and element-store loops"""
        me = ph.meta[0]
        # sum
        def addend(v):
            if v.fp == ph.fp:
                return ZERO
            if isinstance(v, T) and v.op == '+':
                e = sub(v, ph)
                if me not in e.phs:
                    return e
            return None
        e = leaves_map(u, addend, me)
        if e is not None and not isinstance(init, (Tup, Obj)):
            s = vglib.np_sum(bind1('map', count, idx, e, self))
            return lift(lambda a, b: add([a, b]), init, s)

        def factor(v):
            if v.fp == ph.fp:
                return ONE
            if isinstance(v, T) and v.op == '*':
                e = div(v, ph)
                if me not in e.phs:
                    return e
            return None
        # append
        def appended(v):
            items = []
            while isinstance(v, T) and v.op == 'append':
                items.append(v.args[1])
                v = v.args[0]
            if v.fp == ph.fp and not any(me in i.phs for i in items):
                return Tup('list', reversed(items))
            return None
        e = leaves_map(u, appended, me)
        if e is not None:
            ls = leaves(e)
            ini = init
            empty = isinstance(ini, Tup) and not ini.items or (isinstance(ini, T) and ini.op == 'emptyarr')
            if all(isinstance(x, Tup) and len(x.items) == 1 for x in ls):
                b = lift(lambda x: x.items[0], e)
                r = bind1('map', count, idx, b, self)
            else:
                r = op('concatall', bind1('map', count, idx, e, self))
            if empty:
                return r
            return lift(lambda a, b: op('seq+', totup(a), b), ini, r)
        r = self.chunked(count, idx, ph, init, u)
        if r is not None:
            return r
        # element stores
        def stored(v):
            if v.fp == ph.fp:
                return Tup('nostore', ())
            if isinstance(v, T) and v.op == 'store' and v.args[0].fp == ph.fp and me not in v.args[1].phs:
                val = v.args[2]
                if me in val.phs:
                    # reads of the cell about to be written see the initial content
                    val = subst(val, {op('index', ph, v.args[1]).fp: vglib.index(init if isinstance(init, T) else op('seq', init), v.args[1])}, self) \
                        if isinstance(init, (T, Tup)) else val
                    if me in val.phs:
                        return None
                return Tup('st', (v.args[1], val))
            return None
        e = leaves_map(u, stored, me)
        if e is not None:
            ls = leaves(e)
            if isinstance(e, Tup) and e.kind == 'st' and isinstance(init, T) and init.op in ('full', 'mk_like'):
                i, v = e.items
                first = i
                if isinstance(i, Tup) and i.items:
                    rest = i.items[1:]
                    first = i.items[0] if all(isinstance(x, T) and x.op == 'slice' and x.args[0].const is None and x.args[1].const is None for x in rest) else None
                if first is not None and first.fp == idx.fp and vglib.leading(init, count):
                    return bind1('map', count, idx, v, self)
            return op('scatter', init if not isinstance(init, Tup) else op('seq', init), bind1('map', count, idx, e, self))
        return None

    def chunked(self, count, idx, ph, init, u):
        """stores for every element of s[i*c:i*c + c], for every i: stores for every element of s"""
        if not (isinstance(u, T) and u.op == 'scatter' and u.args[0].fp == ph.fp):
            return None
        m = u.args[1]
        if not (isinstance(m, T) and m.op == 'map') or ph.meta[0] in m.phs:
            return None
        n = m.args[0]
        chunk = n.args[0] if isinstance(n, T) and n.op == 'len' else None
        if not (isinstance(chunk, T) and chunk.op == 'index' and isinstance(chunk.args[1], T) and chunk.args[1].op == 'slice'):
            return None
        s, (lo, hi, st) = chunk.args[0], chunk.args[1].args
        c = sub(hi, lo)
        if st.const is not None or set(c.phs) & set(idx.phs):
            return None
        n = vglib.length(s)
        whole = mul(c, idx).fp == lo.fp and count.fp in (vglib.ceil(div(n, c)).fp, vglib.floor(div(sub(add([n, c]), ONE), c)).fp, add([vglib.floor(div(n, c)), ONE]).fp)
        seq = s
        if not whole:
            # a chunk shorter than the step, or too few chunks, leaves elements out
            w, step = as_num(c), as_num(sub(subst(lo, {idx.fp: ONE}, self), subst(lo, {idx.fp: ZERO}, self)))
            if w is None or step is None:
                return None
            short = w < step
            few = any(count.fp == vglib.ceil(div(sub(n, C(k)), C(step))).fp for k in (1, 2, w, step)) or count.fp == vglib.floor(div(n, C(step))).fp
            if not short and not few:
                return None
            seq = op('chunks', s, C(w), C(step), count)
        if set(s.phs) & (set(idx.phs) | {ph.meta[0]}):
            return None
        uses = {}
        todo = [m.args[1]]
        seen = set()
        while todo:
            x = todo.pop()
            if x.fp in seen:
                continue
            seen.add(x.fp)
            if isinstance(x, T) and x.op == 'index' and x.args[0].fp == chunk.fp:
                uses[x.fp] = vglib.index(seq, x.args[1])
            todo += list(x.args) if isinstance(x, T) else list(x.items) if isinstance(x, Tup) else [x.hi, x.lo, x.atom.subj] if isinstance(x, G) else []
        j = fresh()
        body = subst(subst(m.args[1], uses, self), {T('idx', (), H('idx', m.meta[0]), meta=m.meta).fp: j}, self)
        if set(body.phs) & set(idx.phs):
            return None
        flat = bind1('map', vglib.length(seq), j, body, self)
        return op('scatter', init if not isinstance(init, Tup) else op('seq', init), flat)

    def fold(self, count, idx, phs, init, live, sysk, k):
        """canonical colour of variable k in the system of mutually dependent carried variables"""
        iterfp = count.fp
        color = {j: H('fold0', init[j].fp, iterfp) for j in sysk}
        hds = set(count.hds)
        for j in sysk:
            hds |= init[j].hds | live[j].hds
        hds.add('fold')
        ht = max([live[j].ht for j in sysk] + [init[j].ht for j in sysk] + [count.ht]) + 1
        im = {idx.fp: T('idx', (), H('idx', ht), meta=(ht,))}
        base = {j: subst(live[j], im, self) for j in sysk}
        for _ in range(len(sysk) + 1):
            m = {phs[j].fp: T('col', (), color[j]) for j in sysk}
            color = {j: H('fold', color[j], subst(base[j], m, self).fp) for j in sysk}
        args = tuple([count] + [init[j] for j in sysk])
        t = T('fold', args, H('foldv', iterfp, color[k]), meta=(k[-1],), ht=ht)
        t.hds = frozenset(hds)
        t.phs = frozenset(count.phs.union(*[init[j].phs | base[j].phs for j in sysk]) - {p.meta[0] for p in phs.values()} - idx.phs)
        return FoldT.of(t, ('fold', count, idx, phs, init, live, sysk, k))

    def fold_exit(self, count, idx, phs, init, upd, xpc, outs):
        bad = {p.meta[0] for p in phs.values()} | set(idx.phs)
        keys = list(phs)
        return self._fold_exit(count, idx, phs, init, upd, xpc, outs, bad, 0)

    def _fold_exit(self, count, idx, phs, init, upd, xpc, outs, bad, depth):
        if depth < 6:
            a = self.invariant_atom(list(upd.values()) + [xpc] + list(outs.values()), bad)
            if a is not None:
                hi = self._fold_exit(count, idx, phs, init, {j: cof(v, a, True) for j, v in upd.items()}, cof(xpc, a, True), {j: cof(v, a, True) for j, v in outs.items()}, bad, depth + 1)
                lo = self._fold_exit(count, idx, phs, init, {j: cof(v, a, False) for j, v in upd.items()}, cof(xpc, a, False), {j: cof(v, a, False) for j, v in outs.items()}, bad, depth + 1)
                return {k: ite(bool_of_atom(a), hi[k], lo[k]) for k in outs}
        if xpc.const is False and count is not None:
            r = self.close_loop(count, idx, phs, init, upd)
            for k in outs:
                if k not in r:
                    r[k] = FALSE if k != ('ret',) else NONE
            return r
        byuid = {ph.meta[0]: j for j, ph in phs.items()}
        res = {}
        for k, o in outs.items():
            if o.const is False:
                res[k] = FALSE
                continue
            if k in phs and o.fp == phs[k].fp and upd[k].fp == phs[k].fp:
                res[k] = init[k]
                continue
            seen, todo = [], [o, xpc]
            vals = [o, xpc]
            while todo:
                v = todo.pop()
                for x in v.phs:
                    j = byuid.get(x)
                    if j is not None and j not in seen:
                        seen.append(j)
                        todo.append(upd[j])
                        vals.append(upd[j])
            if k in phs and k not in seen:
                seen.append(k)
                vals.append(upd[k])
            # a loop that always leaves in its first iteration
            ht = max([v.ht for v in vals] + [init[j].ht for j in seen] + [0]) + 1
            im = {idx.fp: T('idx', (), H('idx', ht), meta=(ht,))}
            cfp = count.fp if count is not None else H('while')
            color = {j: H('fold0', init[j].fp, cfp) for j in seen}
            xb, ob = subst(xpc, im, self), subst(o, im, self)
            base = {j: subst(upd[j], im, self) for j in seen}
            for _ in range(len(seen) + 1):
                m = {phs[j].fp: T('col', (), color[j]) for j in seen}
                xf = subst(xb, m, self).fp
                color = {j: H('foldx', color[j], subst(base[j], m, self).fp, xf) for j in seen}
            m = {phs[j].fp: T('col', (), color[j]) for j in seen}
            kk = k[0] if k[0] in ('ret', 'retpc', 'raisepc') else 'var'
            fp = H('foldxv', cfp, kk, color.get(k, 0), subst(ob, m, self).fp, subst(xb, m, self).fp)
            args = tuple(([count] if count is not None else []) + [init[j] for j in seen])
            t = T('foldx', args, fp, meta=(k[-1],), ht=ht)
            hd = set(t.hds) | {'foldx'}
            ph = set(t.phs)
            for v in vals:
                hd |= v.hds
                ph |= v.phs
            t.hds = frozenset(hd)
            t.phs = frozenset(ph - {p.meta[0] for p in phs.values()} - set(idx.phs))
            res[k] = FoldT.of(t, ('foldx', count, idx, phs, init, upd, xpc, outs, k))
        return res

    # -- iteration ---------------------------------------------------------------------
    def iter_desc(self, v):
        if isinstance(v, T) and v.op == 'shape':
            n = vglib.infer(v.args[0])[1]
            if n is not None:
                return ('unroll', [vglib.shape_index(v.args[0], C(i)) for i in range(n)])
        if isinstance(v, Tup):
            if v.kind in ('list', 'tuple', 'set', 'st'):
                if len(v.items) > 40:
                    raise Undecided('long literal loop')
                return ('unroll', list(v.items))
            if v.kind == 'dict':
                return ('unroll', list(v.keys))
            if v.kind == 'range':
                a, b, s = v.items
                na, nb, ns = as_num(a), as_num(b), as_num(s)
                if None not in (na, nb, ns) and ns != 0:
                    r = range(int(na), int(nb), int(ns))
                    if len(r) <= UNROLL:
                        return ('unroll', [C(i) for i in r])
                    return ('count', C(len(r)), lambda i: add([a, mul(i, s)]))
                if ns == 1:
                    return ('count', sub(b, a), lambda i: add([a, i]))
                return ('count', vglib.ceil(div(sub(b, a), s)), lambda i: add([a, mul(i, s)]))
            if v.kind == 'enumerate':
                d = self.iter_desc_g(v.items[0])
                start = v.items[1]
                if d[0] == 'unroll':
                    return ('unroll', [Tup('tuple', (lift(lambda a: add([a, C(i)]), start), x)) for i, x in enumerate(d[1])])
                return ('count', d[1], lambda i: Tup('tuple', (add([start, i]), d[2](i))))
            if v.kind == 'zip':
                ds = [self.iter_desc_g(x) for x in v.items]
                un = [d for d in ds if d[0] == 'unroll']
                if un:
                    n = min(len(d[1]) for d in un)
                    out = []
                    for i in range(n):
                        out.append(Tup('tuple', [d[1][i] if d[0] == 'unroll' else d[2](C(i)) for d in ds]))
                    return ('unroll', out)
                return ('count', ds[0][1], lambda i: Tup('tuple', [d[2](i) for d in ds]))
            raise Undecided('iteration over %s' % v.kind)
        if isinstance(v, T):
            if v.op == 'map':
                return ('count', v.args[0], lambda i: vglib.index(v, i))
            if v.op == 'arange':
                return self.iter_desc(Tup('range', v.args))
            if v.op == 'dictitems':
                ks, vs = op('dictkeys', v.args[0]), op('dictvalues', v.args[0])
                return ('count', vglib.length(v.args[0]), lambda i: Tup('tuple', (vglib.index(ks, i), vglib.index(vs, i))))
            if v.const is not NOC:
                if isinstance(v.const, str):
                    return ('unroll', [C(c) for c in v.const])
                raise Undecided('iteration over a constant')
            if v.op == 'ndindex':
                raise Undecided('ndindex')
            return ('count', vglib.length(v), lambda i: vglib.index(v, i))
        raise Undecided('iteration over %s' % type(v).__name__)

    def iter_desc_g(self, v):
        if isinstance(v, G):
            v = collapse(v)
        return self.iter_desc(v)

    def comp(self, gens, st, fr, leafeval, k=0):
        """value of a comprehension's element sequence: Tup list or map/concatall term"""
        g = gens[0]
        it = self.ev(g.iter, st, fr)
        if isinstance(it, T) and it.op == 'stream':
            it = fileio.lines(it, st)

        def over(itv):
            d = self.iter_desc(itv)

            def item(x, idxv):
                s2 = st
                env = s2.frames[fr.id]
                saved = dict(env)
                self.assign(g.target, x, s2, fr)
                c = TRUE
                for t in g.ifs:
                    c = band(c, self.truth(self.ev(t, s2, fr)))
                if len(gens) > 1:
                    sub_ = self.comp(gens[1:], s2, fr, leafeval)
                    r = (c, sub_, True)
                else:
                    r = (c, leafeval(s2), False)
                # comprehension variables are local
                for n in target_names(g.target):
                    if n in saved:
                        s2.frames[fr.id][n] = saved[n]
                    else:
                        s2.frames[fr.id].pop(n, None)
                return r
            if d[0] == 'unroll':
                out = None
                plain = []
                seqs = []
                simple = True
                for x in d[1]:
                    c, v, nested = item(x, None)
                    if nested or c.const is not True:
                        simple = False
                    seqs.append((c, v, nested))
                if simple:
                    return Tup('list', [v for _, v, _ in seqs])
                r = Tup('list', ())
                for c, v, nested in seqs:
                    piece = v if nested else Tup('list', (v,))
                    r = ite(c, lift(lambda a, b: self.seq_extend(a, b), r, piece), r)
                return r
            _, count, elem = d
            idx = fresh()
            if isinstance(count, G):
                count = collapse(count)
            c, v, nested = item(elem(idx), idx)
            if c.const is True and not nested:
                return self.close_map(count, idx, v)
            piece = v if nested else Tup('list', (v,))
            return op('concatall', bind1('map', count, idx, ite(c, piece, Tup('list', ())), self))
        return lift(over, it)

    def close_map(self, count, idx, v, depth=0):
        if depth < 7:
            a = self.invariant_atom([v], set(idx.phs))
            if a is not None:
                return ite(bool_of_atom(a), self.close_map(count, idx, cof(v, a, True), depth + 1), self.close_map(count, idx, cof(v, a, False), depth + 1))
        return bind1('map', count, idx, v, self)

    # -- assignment --------------------------------------------------------------------
    def cell_of(self, name, st, fr):
        f = fr
        while f is not None:
            if name in f.globals_:
                return None
            env = st.frames.get(f.id)
            if env is not None and name in env:
                return env[name]
            if name in f.locals:
                return None
            f = f.parent
        return None

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                st.heap[('g', fr.module.name, t.id)] = v
            elif t.id in fr.locals or fr.parent is None or isinstance(fr.node, ast.Lambda):
                st.frames[fr.id][t.id] = newcell(st, v)
                if isinstance(v, T) and v.op == 'numpy.ndarray':
                    self.shared[v.fp] = st.frames[fr.id][t.id]
            else:
                c = self.cell_of(t.id, st, fr)
                if c is not None:
                    st.heap[c] = v
                else:
                    st.frames[fr.id][t.id] = newcell(st, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Undecided('starred target')
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                self.assign(e, lift(lambda x: self.unpack(x, i, n), v), st, fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            self.assign_back(t.value, lift(lambda b, j, x: self.store(b, j, x), base, i, v), st, fr)
        elif isinstance(t, ast.Attribute):
            r = self.static_ref(t, fr, st)
            if r is not None and r[0] == 'var':
                st.heap[('g', r[1].name, r[2])] = v
                return
            base = self.ev(t.value, st, fr)
            self.assign_back(t.value, lift(lambda b, x: self.setattr_(b, t.attr, x), base, v), st, fr)
        else:
            raise Undecided('assignment target')

    def assign_back(self, target, v, st, fr):
        """in-place update of the object that expression `target` denotes"""
        if isinstance(target, ast.Name):
            c = self.cell_of(target.id, st, fr)
            if c is not None:
                st.heap[c] = v
                return
            b = self.P.lookup(fr.module, target.id, fr.func)
            if b and b[0] == 'var':
                st.heap[('g', b[1].name, b[2])] = v
            return
        if isinstance(target, (ast.Subscript, ast.Attribute)):
            self.assign(target, v, st, fr)

    def unpack(self, x, i, n):
        if isinstance(x, Tup) and x.kind in ('list', 'tuple', 'st'):
            if len(x.items) != n:
                return RAISE
            return x.items[i]
        if isinstance(x, Raise):
            return x
        return vglib.index(toT(x), C(i))

    def setattr_(self, b, name, v):
        if isinstance(b, Obj):
            f = dict(b.fields)
            f[name] = v
            return Obj(b.cls, b.base, f)
        return Obj(None, toT(b), {name: v})

    def store(self, b, i, v):
        if isinstance(b, Tup):
            if b.kind == 'dict' and isinstance(i, T) and i.const is not NOC:
                ks, vs = list(b.keys), list(b.items)
                for n, k in enumerate(ks):
                    if k.fp == i.fp:
                        vs[n] = v
                        return Tup('dict', vs, ks)
                return Tup('dict', vs + [v], ks + [i])
            if b.kind == 'list' and isinstance(i, T) and as_num(i) is not None:
                n = int(as_num(i))
                if -len(b.items) <= n < len(b.items):
                    l = list(b.items)
                    l[n] = v
                    return Tup('list', l)
            b = op('seq', b)
        if isinstance(b, Obj):
            return Obj(b.cls, op('store', toT(b), toT(i), toT(v)), {})
        return vglib.store(toT(b), i, v)

    def seq_extend(self, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup) and a.kind in ('list', 'tuple') and b.kind in ('list', 'tuple'):
            return Tup(a.kind, list(a.items) + list(b.items))
        if isinstance(a, Tup) and not a.items and isinstance(b, T) and b.op in ('map', 'concatall', 'seq+'):
            return b
        return op('seq+', totup(a), toT(b))

    # -- expressions -------------------------------------------------------------------
    def ev(self, e, st, fr):
        self.tick(e, fr)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return C(e.value)

    def e_Name(self, e, st, fr):
        c = self.cell_of(e.id, st, fr)
        if c is not None:
            v = st.heap[c]
            if 'unbound' in v.hds and isinstance(v, G) and e.id in fr.locals:
                fr.unset.add(e.id)
            return v
        f = fr
        while f is not None:
            if e.id in f.locals and e.id not in f.globals_:
                if not (isinstance(f.node, ast.FunctionDef) and f.func is not None and e.id in self.P.local_imports(f.func)):
                    f.unset.add(e.id)
                    return UNBOUND
            f = f.parent
        b = self.P.lookup(fr.module, e.id, fr.func)
        return self.from_binding(b, e.id, st)

    def from_binding(self, b, name, st):
        if b is None:
            return leaf('undefined', name)
        k = b[0]
        if k == 'var':
            key = ('g', b[1].name, b[2])
            if key in st.heap:
                return st.heap[key]
            return self.module_var(b[1], b[2])
        if k == 'func':
            return Fn(func=b[1], node=b[1].node, module=b[1].module)
        if k == 'class':
            return leaf('class', b[1].qual)
        if k == 'mod':
            return leaf('mod', b[1].name)
        if k in ('ext', 'ext?'):
            return vglib.libconst(b[1])
        if k == 'builtin':
            return leaf('lib', b[1])
        return leaf('undefined', name)

    def module_var(self, mod, name):
        memo = getattr(self.P, '_modvars', None)
        if memo is None:
            memo = self.P._modvars = {}
        key = (mod.name, name)
        if key in memo:
            return memo[key]
        memo[key] = leaf('glob', mod.name, name)
        setters = any(name in getattr(f, 'globals_', ()) for f in mod.all_funcs) or self.assigned_elsewhere(mod, name)
        if not setters:
            defs = [s for s in mod.tree.body if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for n in ast.walk(t))]
            if len(defs) == 1 and isinstance(defs[0], ast.Assign) and len(defs[0].targets) == 1 and isinstance(defs[0].targets[0], ast.Name):
                fr = Frame(None, mod, None)
                st = State({fr.id: {}}, {('rng',): leaf('rng')}, TRUE)
                try:
                    n = sum(1 for _ in ast.walk(defs[0].value))
                    if n < 120:
                        memo[key] = self.ev(defs[0].value, st, fr)
                except (Undecided, TooBig):
                    pass
        return memo[key]

    def assigned_elsewhere(self, mod, name):
        memo = getattr(self.P, '_modassign', None)
        if memo is None:
            memo = self.P._modassign = set()
            for f in self.P.all_functions():
                for s in own_walk(f.node):
                    if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store):
                        b = self.P.resolve_expr(f.module, s.value, f)
                        if b and b[0] == 'mod':
                            memo.add((b[1].name, s.attr))
        return (mod.name, name) in memo

    def static_ref(self, e, fr, st):
        """binding of a dotted name that is a module member"""
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name):
            return None
        if self.cell_of(root.id, st, fr) is not None:
            return None
        f = fr
        while f is not None:
            if root.id in f.locals and root.id not in f.globals_ and not (f.func is not None and root.id in self.P.local_imports(f.func)):
                return None
            f = f.parent
        return self.P.resolve_expr(fr.module, e, fr.func)

    def e_Attribute(self, e, st, fr):
        r = self.static_ref(e, fr, st)
        if r is not None:
            return self.from_binding(r, e.attr, st)
        v = self.ev(e.value, st, fr)
        return lift(lambda x: self.attr(x, e.attr, st, fr), v)

    def attr(self, x, name, st, fr):
        if isinstance(x, Raise):
            return x
        if isinstance(x, Obj):
            if name in x.fields:
                return x.fields[name]
            if x.cls is not None:
                m = self.P.find_method(x.cls, name)
                if m is not None:
                    if m.is_property:
                        return self.call_func(m, {m.self_name: x}, st, fr)
                    return Fn(func=m, node=m.node, bound=(x if not m.is_static else None), module=m.module)
            if x.base is None:
                return op('attr', x, meta=name, head=None)
            return vglib.attribute(x.base, name)
        if isinstance(x, Tup):
            return op('attr', x, meta=name, head=None) if name not in ('shape', 'size', 'ndim', 'T') else vglib.attribute(toT(x), name)
        if isinstance(x, Fn):
            return leaf('fnattr', name, x.fp)
        if x.op == 'class':
            cls = self.cls_of(x)
            m = self.P.find_method(cls, name)
            if m is not None:
                return Fn(func=m, node=m.node, module=m.module)
        return vglib.attribute(x, name)

    def cls_of(self, t):
        q = t.meta[0].split('.')
        return self.P.modules[q[0]].classes[q[-1]]

    def e_Tuple(self, e, st, fr):
        return self.display('tuple', e, st, fr)

    def e_List(self, e, st, fr):
        return self.display('list', e, st, fr)

    def e_Set(self, e, st, fr):
        return self.display('set', e, st, fr)

    def display(self, kind, e, st, fr):
        r = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                if isinstance(v, Tup) and v.kind in ('list', 'tuple'):
                    r.extend(v.items)
                    continue
                n = vglib.infer(v.args[0])[1] if isinstance(v, T) and v.op == 'shape' else None
                if n is not None:
                    r.extend(vglib.index(v, C(i)) for i in range(n))
                    continue
                raise Undecided('starred display')
            r.append(self.ev(x, st, fr))
        return Tup(kind, r)

    def e_Dict(self, e, st, fr):
        ks, vs = [], []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Undecided('dict unpacking')
            kk = self.ev(k, st, fr)
            if not (isinstance(kk, T)):
                raise Undecided('dict key')
            ks.append(kk)
            vs.append(self.ev(v, st, fr))
        return Tup('dict', vs, ks)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = collapse_any(self.ev(v.value, st, fr))
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(str(s.value) if isinstance(s, ast.Constant) else '?' for s in v.format_spec.values)
                if isinstance(x, T) and isinstance(x.const, str) and not spec:
                    parts.append(x)
                else:
                    parts.append(op('fmt', toT(x), meta=spec))
        if all(isinstance(p.const, str) for p in parts):
            return C(''.join(p.const for p in parts))
        return op('fstr', *parts)

    def e_FormattedValue(self, e, st, fr):
        return op('fmt', toT(collapse_any(self.ev(e.value, st, fr))))

    def e_Starred(self, e, st, fr):
        raise Undecided('starred')

    def e_Lambda(self, e, st, fr):
        return Fn(node=e, env=fr.id, frame=fr, module=fr.module, func=None)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.ev(e.test, st, fr))
        box = {}
        tot = band(fr.base, st.pc)
        if band(tot, bnot(c)).const is False:
            return self.ev(e.body, st, fr)
        if band(tot, c).const is False:
            return self.ev(e.orelse, st, fr)

        def a(x):
            box['a'] = self.ev(e.body, x, fr)

        def b(x):
            box['b'] = self.ev(e.orelse, x, fr)
        self.branch(c, a, b, st, fr)
        return ite(c, box['a'], box['b'])

    def e_BoolOp(self, e, st, fr):
        v = self.ev(e.values[0], st, fr)
        for nx in e.values[1:]:
            c = self.truth(v)
            go = c if isinstance(e.op, ast.And) else bnot(c)
            if band(band(fr.base, st.pc), go).const is False:
                continue
            box = {}

            def evn(x):
                box['w'] = self.ev(nx, x, fr)
            self.branch(go, evn, lambda x: None, st, fr)
            w = box['w']
            # boolean-valued operands combine as conditions
            if self.isbool(v) and self.isbool(w):
                cw = self.truth(w)
                v = band(c, cw) if isinstance(e.op, ast.And) else bor(c, cw)
            else:
                v = ite(c, w, v) if isinstance(e.op, ast.And) else ite(c, v, w)
        return v

    def isbool(self, v):
        if isinstance(v, G):
            return self.isbool(v.hi) and self.isbool(v.lo)
        return isinstance(v, T) and (v.const is True or v.const is False or v.op in ('pos', 'zero', 'eq', 'not', 'and', 'or', 'isinst', 'in', 'numpy.isscalar', 'hasattr', 'callable'))

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            return lift(lambda a: neg(toT(a)) if not isinstance(a, Raise) else a, v)
        if isinstance(e.op, ast.UAdd):
            return v
        return lift(lambda a: vglib.lnot(toT(a)), v)

    def e_BinOp(self, e, st, fr):
        a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
        return lift(lambda x, y: self.binop(e.op, x, y), a, b)

    def binop(self, o, a, b):
        if isinstance(a, Raise) or isinstance(b, Raise):
            return RAISE
        if isinstance(o, ast.Add):
            if isinstance(a, Tup) and isinstance(b, Tup) and a.kind == b.kind and a.kind in ('list', 'tuple'):
                return Tup(a.kind, a.items + b.items)
            if isinstance(a, T) and isinstance(b, T) and isinstance(a.const, str) and isinstance(b.const, str):
                return C(a.const + b.const)
            if (isinstance(a, T) and isinstance(a.const, str)) or (isinstance(b, T) and isinstance(b.const, str)) or \
                    (isinstance(a, T) and a.op in ('strcat', 'fstr')) or (isinstance(b, T) and b.op in ('strcat', 'fstr')):
                return op('strcat', toT(a), toT(b))
            if isinstance(a, Tup) and a.kind == 'list':
                return op('seq+', totup(a), toT(b))
        if isinstance(o, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Tup) and x.kind in ('list', 'tuple') and isinstance(y, T):
                    n = as_num(y)
                    if n is not None and n.denominator == 1 and 0 <= n <= 8:
                        return Tup(x.kind, x.items * int(n))
                    if len(x.items) == 1:
                        return op('full', Tup('tuple', (toT(y),)) if False else toT(y), toT(x.items[0]))
                    return op('seq*', totup(x), toT(y))
        if isinstance(o, ast.Mod) and isinstance(a, T) and isinstance(a.const, str):
            return op('fstr', a, toT(b))
        return vglib.binop(type(o).__name__, toT(a), toT(b))

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = None
        for o, rx in zip(e.ops, e.comparators):
            right = self.ev(rx, st, fr)
            v = lift(lambda a, b: self.compare(o, a, b), left, right)
            if res is None:
                res = v
            else:
                res = band(self.truth(res), self.truth(v))
            left = right
        return res

    def compare(self, o, a, b):
        n = type(o).__name__
        if isinstance(a, Raise) or isinstance(b, Raise):
            return RAISE
        if n in ('In', 'NotIn'):
            items = None
            if isinstance(b, Tup):
                items = b.keys if b.kind == 'dict' else (b.items if b.kind in ('list', 'tuple', 'set') else None)
            if items is not None:
                r = FALSE
                for i in items:
                    r = bor(r, self.truth(lift(lambda x: self.compare(ast.Eq(), a, x), i)))
            else:
                if isinstance(b, T) and b.op == 'dictkeys':
                    b = b.args[0]
                if isinstance(a, T) and isinstance(b, T) and isinstance(a.const, str) and isinstance(b.const, str):
                    r = C(a.const in b.const)
                else:
                    r = op('in', toT(a), toT(b))
            if n == 'NotIn':
                return bnot(self.truth(r))
            return r
        if n in ('Is', 'IsNot'):
            r = self.same(a, b)
            return r if n == 'Is' else vglib.lnot(r)
        if n == 'Eq':
            return self.same(a, b)
        if n == 'NotEq':
            return vglib.lnot(self.same(a, b))
        return vglib.compare(n, toT(a), toT(b))

    def same(self, a, b):
        if a.fp == b.fp:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.const is None:
                if isinstance(y, (Tup, Obj, Fn)):
                    return FALSE
                if isinstance(y, T) and (y.const is not NOC or vglib.never_none(y)):
                    return FALSE
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.kind == b.kind:
            r = TRUE
            for x, y in zip(a.items, b.items):
                r = band(r, self.truth(lift(lambda p, q: self.same(p, q), x, y)))
            return r
        return vglib.equal(toT(a), toT(b), isinstance(b, T) and b.op == 'lib')

    def e_Subscript(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        i = self.ev_index(e.slice, st, fr)
        return lift(lambda x, j: self.subscript(x, j, st, fr), v, i)

    def subscript(self, x, j, st=None, fr=None):
        if isinstance(x, Raise):
            return x
        if isinstance(x, Tup):
            if x.kind == 'dict':
                for k, v in zip(x.keys, x.items):
                    if k.fp == j.fp:
                        return v
                if isinstance(j, T) and j.const is NOC and all(k.const is not NOC for k in x.keys):
                    r = RAISE
                    for k, v in reversed(list(zip(x.keys, x.items))):
                        r = ite(self.truth(self.same(j, k)), v, r)
                    return r
                if isinstance(j, T) and j.const is not NOC and all(k.const is not NOC for k in x.keys):
                    return RAISE
            elif isinstance(j, T) and as_num(j) is not None and x.kind in ('list', 'tuple', 'st'):
                n = int(as_num(j))
                if -len(x.items) <= n < len(x.items):
                    return x.items[n]
                return RAISE
            elif isinstance(j, T) and j.op == 'slice' and x.kind in ('list', 'tuple') and all(a.const is not NOC for a in j.args):
                lo, hi, stp = [None if a.const is None else int(as_num(a)) for a in j.args]
                return Tup(x.kind, x.items[slice(lo, hi, stp)])
            return vglib.index(op('seq', x), j)
        if isinstance(x, Obj):
            if x.cls is not None:
                m = self.P.find_method(x.cls, '__getitem__')
                if m is not None and st is not None:
                    return self.call_func(m, {m.self_name: x, m.pos[1]: j}, st, fr)
            return vglib.index(toT(x), j)
        return vglib.index(toT(x), j)

    def ev_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            a = [self.ev(x, st, fr) if x is not None else NONE for x in (s.lower, s.upper, s.step)]
            return lift(lambda lo, hi, stp: vglib.mkslice(lo, hi, stp), *a)
        if isinstance(s, ast.Tuple):
            r = Tup('tuple', [self.ev_index(x, st, fr) for x in s.elts])
            return spread(r)
        return self.ev(s, st, fr)

    def e_Slice(self, e, st, fr):
        return self.ev_index(e, st, fr)

    def e_ListComp(self, e, st, fr):
        return self.comp(e.generators, st, fr, lambda s: self.ev(e.elt, s, fr))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        return lift(lambda v: op('set', toT(v)), self.comp(e.generators, st, fr, lambda s: self.ev(e.elt, s, fr)))

    def e_DictComp(self, e, st, fr):
        v = self.comp(e.generators, st, fr, lambda s: Tup('tuple', (self.ev(e.key, s, fr), self.ev(e.value, s, fr))))

        def mk(x):
            if isinstance(x, Tup) and all(isinstance(i, Tup) and len(i.items) == 2 and isinstance(i.items[0], T) for i in x.items):
                return Tup('dict', [i.items[1] for i in x.items], [i.items[0] for i in x.items])
            return op('dictof', toT(x))
        return lift(mk, v)

    # -- truth -------------------------------------------------------------------------
    def truth(self, v):
        try:
            return apply(self.truth_leaf, [v])
        except TooBig:
            raise Undecided('condition too large')

    def truth_leaf(self, v):
        if isinstance(v, Raise):
            return FALSE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, (Obj, Fn)):
            return TRUE
        if v.const is not NOC:
            c = v.const
            if isinstance(c, Fraction):
                return TRUE if c != 0 else FALSE
            return TRUE if c else FALSE
        o = v.op
        if o == 'not':
            return bnot(self.truth_leaf(v.args[0]))
        if o == 'and':
            r = TRUE
            for a in v.args:
                r = band(r, self.truth_leaf(a))
            return r
        if o == 'or':
            r = FALSE
            for a in v.args:
                r = bor(r, self.truth_leaf(a))
            return r
        if o == 'sel':
            return self.truth(v.args[0])
        if o == 'shape' and vglib.infer(v.args[0])[1]:
            return TRUE
        if o == 'pos':
            return bool_of_atom(Atom('pos', v.args[0]))
        if o == 'zero':
            return bool_of_atom(Atom('zero', v.args[0]))
        if o == 'eq':
            return bool_of_atom(Atom('eq', v.args[0], v.args[1]))
        if o == 'isinst':
            return bool_of_atom(Atom('isinst', v.args[0], v.meta))
        if o in ('lib', 'class', 'mod'):
            return TRUE
        if vglib.infer(v) in (('float', 0), ('int', 0)) and o not in ('all', 'any', 'in'):
            return bnot(self.truth(vglib.equal(v, ZERO)))
        return bool_of_atom(Atom('truth', v))

    # -- calls -------------------------------------------------------------------------
    def e_Call(self, e, st, fr):
        f = e.func
        # method call on a value
        if isinstance(f, ast.Attribute):
            r = self.static_ref(f, fr, st)
            if r is None:
                if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                    return self.super_call(e, f, st, fr)
                recv = self.ev(f.value, st, fr)
                return self.method_call(e, f, recv, st, fr)
            fv = self.from_binding(r, f.attr, st)
        else:
            fv = self.ev(f, st, fr)
        if isinstance(fv, T) and fv.op == 'lib' and fv.meta[0] in IGNORED_CALLS:
            return NONE
        if isinstance(fv, Fn) and fv.func is not None and fv.func.qual in IGNORED_REPO:
            return NONE
        if isinstance(fv, T) and fv.op == 'lib' and fv.meta[0] in ('isinstance', 'type') and not e.keywords:
            return self.type_test(fv.meta[0], e, st, fr)
        args, kws, star = self.ev_args(e, st, fr)
        if len(args) == 1 and not kws and not star and isinstance(args[0][1], T) and isinstance(args[0][1].const, str):
            text = args[0][1].const

            def evaluated(g, x):
                # eval('...') / numexpr.evaluate('...'): the expression over the caller's names
                if isinstance(g, T) and g.op == 'lib' and g.meta[0] in EVAL_STRING:
                    try:
                        node = ast.parse(text, mode='eval').body
                    except SyntaxError:
                        raise Undecided('evaluation of %r' % text)
                    for n in ast.walk(node):
                        if hasattr(n, 'lineno'):
                            ast.copy_location(n, e)
                    return self.ev(node, x, fr)
                return self.call_value(g, args, kws, star, x, fr, e)
            return self.split_call(fv, evaluated, st, fr)
        return self.split_call(fv, lambda g, x: self.call_value(g, args, kws, star, x, fr, e), st, fr)

    def split_call(self, fv, k, st, fr):
        if isinstance(fv, G):
            a = bool_of_atom(fv.atom)
            box = {}

            def h(x):
                box['h'] = self.split_call(fv.hi, k, x, fr)

            def l(x):
                box['l'] = self.split_call(fv.lo, k, x, fr)
            tot = band(fr.base, st.pc)
            if band(tot, a).const is False:
                return self.split_call(fv.lo, k, st, fr)
            if band(tot, bnot(a)).const is False:
                return self.split_call(fv.hi, k, st, fr)
            self.branch(a, h, l, st, fr)
            return ite(a, box['h'], box['l'])
        return k(fv, st)

    def ev_args(self, e, st, fr):
        args, kws, star = [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                if isinstance(v, Tup) and v.kind in ('list', 'tuple'):
                    args.extend((None, x) for x in v.items)
                else:
                    star.append(v)
                continue
            args.append((a, self.ev(a, st, fr)))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if isinstance(v, Tup) and v.kind == 'dict' and all(isinstance(x.const, str) for x in v.keys):
                    for kk, vv in zip(v.keys, v.items):
                        kws[kk.const] = (None, vv)
                else:
                    star.append(v)
                continue
            kws[k.arg] = (k.value, v)
        return args, kws, star

    def type_test(self, which, e, st, fr):
        v = self.ev(e.args[0], st, fr)
        if which == 'type':
            if len(e.args) != 1:
                raise Undecided('type()')
            return lift(lambda x: op('typeof', toT(x)), v)
        tn = self.type_names(e.args[1], st, fr)
        r = FALSE
        for t in tn:
            r = bor(r, self.truth(lift(lambda x: self.isinst(x, t), v)))
        return r

    def type_names(self, t, st, fr):
        if isinstance(t, (ast.Tuple, ast.List)):
            return [n for x in t.elts for n in self.type_names(x, st, fr)]
        v = self.ev(t, st, fr)
        if isinstance(v, Tup):
            return [vglib.type_name(x) for x in v.items]
        return [vglib.type_name(v)]

    def class_named(self, qual):
        m = self.P.modules.get(qual.split('.')[0])
        return m.classes.get(qual.split('.')[-1]) if m is not None else None

    def isinst(self, x, t):
        if isinstance(x, Tup):
            k = {'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'set': 'set'}.get(x.kind)
            if k:
                return TRUE if t == k else FALSE
        if isinstance(x, T) and x.const is not NOC:
            c = x.const
            if c is None:
                return FALSE
            if isinstance(c, str):
                return C(t == 'str')
            if isinstance(c, bool):
                return C(t in ('bool', 'int', 'num'))
            if isinstance(c, Fraction):
                if t in ('str', 'list', 'tuple', 'dict', 'numpy.ndarray'):
                    return FALSE
        if isinstance(x, Obj) and x.cls is not None and t.startswith('class:'):
            c, todo = None, [x.cls]
            while todo:
                c = todo.pop()
                if 'class:' + c.qual == t:
                    return TRUE
                todo += c.bases
            return FALSE
        if isinstance(x, T) and x.op.startswith('new:') and self.class_named(x.op[4:]) is not None:
            if t in ('str', 'list', 'tuple', 'dict', 'float', 'int', 'num', 'bool', 'numpy.ndarray'):
                return FALSE
            if t.startswith('class:'):
                return self.isinst(Obj(self.class_named(x.op[4:]), None, {}), t)
        if isinstance(x, T):
            r = vglib.is_type(vglib.infer(x)[0], t)
            if r is not None:
                return C(r)
        if isinstance(x, T) and x.op in vglib.ARRAY_OPS:
            if t == 'numpy.ndarray':
                return TRUE
            if t in ('str', 'list', 'tuple', 'dict', 'float', 'int', 'numpy.float64', 'None'):
                return FALSE
        return op('isinst', toT(x), meta=t)

    def super_call(self, e, f, st, fr):
        fn = fr.func
        if fn is None or fn.cls is None or not fn.cls.bases:
            args, kws, star = self.ev_args(e, st, fr)
            return op('super.' + f.attr, *[toT(v) for _, v in args])
        m = None
        for b in fn.cls.bases:
            m = self.P.find_method(b, f.attr)
            if m:
                break
        if m is None:
            return NONE
        args, kws, star = self.ev_args(e, st, fr)
        c = self.cell_of(fn.self_name, st, fr)
        return self.call_repo(m, args, kws, star, st, fr, e, selfcell=c)

    def method_call(self, e, f, recv, st, fr):
        if isinstance(recv, G):
            a = bool_of_atom(recv.atom)
            box = {}
            tot = band(fr.base, st.pc)
            if band(tot, a).const is False:
                return self.method_call(e, f, recv.lo, st, fr)
            if band(tot, bnot(a)).const is False:
                return self.method_call(e, f, recv.hi, st, fr)

            def h(x):
                box['h'] = self.method_call(e, f, recv.hi, x, fr)

            def l(x):
                box['l'] = self.method_call(e, f, recv.lo, x, fr)
            self.branch(a, h, l, st, fr)
            return ite(a, box['h'], box['l'])
        if isinstance(recv, Raise):
            return recv
        name = f.attr
        args, kws, star = self.ev_args(e, st, fr)
        if isinstance(recv, Obj):
            if name in recv.fields:
                return self.call_value(recv.fields[name], args, kws, star, st, fr, e)
            if recv.cls is not None:
                m = self.P.find_method(recv.cls, name)
                if m is not None:
                    if m.is_static:
                        return self.call_repo(m, args, kws, star, st, fr, e)
                    sc = None
                    if isinstance(f.value, ast.Name):
                        sc = self.cell_of(f.value.id, st, fr)
                    if sc is None:
                        sc = newcell(st, recv)
                        r = self.call_repo(m, args, kws, star, st, fr, e, selfcell=sc)
                        if not st.dead and isinstance(f.value, (ast.Attribute, ast.Subscript)) and st.heap[sc].fp != recv.fp:
                            self.assign_back(f.value, st.heap[sc], st, fr)
                        return r
                    return self.call_repo(m, args, kws, star, st, fr, e, selfcell=sc)
        vals = [v for _, v in args]
        kv = {k: v for k, (_, v) in kws.items()}
        if any(isinstance(v, Raise) for v in vals):
            return RAISE
        if name in fileio.METHODS and not star and (name == 'tofile' or name in fileio.WRITERS or isinstance(recv, T) and recv.op == 'stream'):
            r = fileio.method(self, collapse(recv), name, [collapse(self.tv(v, st, fr)) for v in vals], {k: collapse(self.tv(v, st, fr)) for k, v in kv.items()}, st)
            if r is not None:
                return r
        # in-place container and array methods
        if name in ('append', 'extend', 'insert', 'update', 'sort', 'fill', 'pop', 'add', 'remove', 'setdefault', 'clear', 'reverse') and not star:
            r = lift(lambda x, *a: self.mutator(x, name, a, kv), recv, *vals)
            if r is not None:
                newv = lift(lambda p: p.items[0], r)
                ret = lift(lambda p: p.items[1], r)
                if newv.fp != recv.fp:
                    self.assign_back(f.value, newv, st, fr)
                return ret
        if star:
            vals = vals + [op('star', toT(s)) for s in star]
        names = list(kv)
        return lift(lambda x, *a: self.call_method(x, name, list(a[:len(vals)]), dict(zip(names, a[len(vals):])), st, fr), recv, *(vals + [kv[n] for n in names]))

    def mutator(self, x, name, a, kv):
        """Tup(new receiver, returned value)"""
        def R(n, r=NONE):
            return Tup('pair', (n, r))
        if name == 'append':
            if isinstance(x, Tup) and x.kind == 'list':
                return R(Tup('list', x.items + (a[0],)))
            return R(op('append', toT(x), a[0] if True else toT(a[0])))
        if name == 'extend':
            return R(self.seq_extend(x, a[0]))
        if name == 'update' and isinstance(x, Tup) and x.kind == 'dict':
            d = x
            if a and isinstance(a[0], Tup) and a[0].kind == 'dict':
                for k, v in zip(a[0].keys, a[0].items):
                    d = self.store(d, k, v)
            elif a:
                return R(op('dictupdate', op('seq', x), toT(a[0])))
            for k in kv:
                d = self.store(d, C(k), kv[k])
            return R(d)
        if isinstance(x, Tup) and x.kind == 'list' and name in ('remove', 'insert', 'reverse', 'clear'):
            l = list(x.items)
            if name == 'reverse':
                return R(Tup('list', l[::-1]))
            if name == 'clear':
                return R(Tup('list', ()))
            if name == 'insert' and len(a) == 2 and as_num(a[0]) is not None:
                l.insert(int(as_num(a[0])), a[1])
                return R(Tup('list', l))
            if name == 'remove' and a[0].const is not NOC and all(i.const is not NOC for i in l):
                for k, i in enumerate(l):
                    if i.fp == a[0].fp:
                        del l[k]
                        return R(Tup('list', l))
        if name == 'fill':
            return R(op('full', vglib.shape(toT(x)), toT(a[0])))
        if name == 'sort':
            return R(op('numpy.sort', toT(x), *[toT(i) for i in a]))
        if name == 'pop':
            if isinstance(x, Tup) and x.kind == 'list' and x.items and (not a or as_num(a[0]) is not None):
                n = int(as_num(a[0])) if a else -1
                if -len(x.items) <= n < len(x.items):
                    l = list(x.items)
                    r = l.pop(n)
                    return R(Tup('list', l), r)
            return R(op('popped', toT(x), *[toT(i) for i in a]), op('popval', toT(x), *[toT(i) for i in a]))
        return R(op('mut:' + name, toT(x), *([toT(i) for i in a] + [toT(kv[k]) for k in sorted(kv)])))

    def call_method(self, x, name, vals, kv, st, fr):
        if isinstance(x, Raise):
            return x
        if isinstance(x, Tup):
            if x.kind == 'dict':
                if name == 'keys':
                    return Tup('list', x.keys)
                if name == 'values':
                    return Tup('list', x.items)
                if name == 'items':
                    return Tup('list', [Tup('tuple', (k, v)) for k, v in zip(x.keys, x.items)])
                if name == 'get':
                    r = self.subscript(x, vals[0])
                    d = vals[1] if len(vals) > 1 else NONE
                    return lift(lambda q: d if isinstance(q, Raise) else q, r)
                if name == 'copy':
                    return x
            if name == 'index' and x.kind in ('list', 'tuple') and vals and vals[0].const is not NOC:
                for i, v in enumerate(x.items):
                    if v.fp == vals[0].fp:
                        return C(i)
            if name in ('copy', 'tolist'):
                return x
            x = op('seq', x)
        if isinstance(x, Fn):
            return op('m:' + name, toT(x, self), *[toT(v, self) for v in vals])
        if isinstance(x, Obj):
            return op('m:' + name, toT(x), *([toT(v, self) for v in vals] + [toT(kv[k], self) for k in sorted(kv)]), meta=tuple(sorted(kv)) or None)
        if x.op == 'mod':
            return op('m:' + name, x, *[toT(v) for v in vals])
        return vglib.method(self, x, name, [toT(v, self) if isinstance(v, (Fn, Obj)) else v for v in vals], {k: toT(v, self) if isinstance(v, (Fn, Obj)) else v for k, v in kv.items()}, st)

    def call_value(self, fv, args, kws, star, st, fr, e):
        if isinstance(fv, Raise):
            return fv
        if isinstance(fv, Fn):
            if fv.partial is not None:
                pa, pk = fv.partial
                kk = dict(pk)
                kk.update(kws)
                return self.call_value(Fn(func=fv.func, node=fv.node, env=fv.env, frame=fv.frame, bound=fv.bound, module=fv.module), pa + args, kk, star, st, fr, e)
            if fv.func is not None and fv.frame is None:
                if fv.bound is not None:
                    sc = newcell(st, fv.bound)
                    return self.call_repo(fv.func, args, kws, star, st, fr, e, selfcell=sc)
                return self.call_repo(fv.func, args, kws, star, st, fr, e)
            return self.call_closure(fv, args, kws, star, st, fr)
        vals = [v for _, v in args]
        kv = {k: v for k, (_, v) in kws.items()}
        if isinstance(fv, T) and fv.op == 'class':
            return self.construct(self.cls_of(fv), args, kws, star, st, fr, e)
        if isinstance(fv, T) and fv.op == 'lib':
            if fv.meta[0] == 'functools.partial' and vals and isinstance(vals[0], Fn) and not star:
                g = vals[0]
                return Fn(func=g.func, node=g.node, env=g.env, frame=g.frame, bound=g.bound, module=g.module, partial=(args[1:], kws))
            if fv.meta[0] in ('joblib.delayed',) and vals:
                return vals[0]
            if fv.meta[0] in ('joblib.Parallel',):
                return leaf('lib', 'parallel')
            if fv.meta[0] == 'parallel' and len(vals) == 1 and not kws and not star:
                for c in self.shared.values():
                    if c in st.heap:
                        st.heap[c] = lift(lambda a, b: op('shared_by', toT(a, self), toT(b, self)), st.heap[c], vals[0])
                return vals[0]
            if fv.meta[0] in ('getattr', 'hasattr') and len(vals) >= 2 and isinstance(vals[0], Obj) and isinstance(vals[1], T) and isinstance(vals[1].const, str):
                o, n = vals[0], vals[1].const
                if n in o.fields or o.cls is not None and self.P.find_method(o.cls, n) is not None:
                    return TRUE if fv.meta[0] == 'hasattr' else self.attr(o, n, st, fr)
                if o.base is None and o.cls is not None and not o.cls.node.bases and n not in o.cls.class_attrs and len(vals) == 3 - (fv.meta[0] == 'hasattr'):
                    return FALSE if fv.meta[0] == 'hasattr' else vals[2]
            if fv.meta[0] in fileio.CALLS and not star:
                if any(isinstance(v, Raise) for v in vals):
                    return RAISE
                r = self.file_call(fv.meta[0], [self.tv(v, st, fr) for v in vals], {k: self.tv(v, st, fr) for k, v in kv.items()}, st, fr)
                if r is not None:
                    return r
            if fv.meta[0] in ('enumerate', 'zip', 'list', 'tuple', 'sorted', 'map', 'itertools.islice'):
                vals = [fileio.lines(v, st) if isinstance(v, T) and v.op == 'stream' else v for v in vals]
                args = [(n, v) for (n, _), v in zip(args, vals)]
            if fv.meta[0] == 'map' and len(vals) == 2 and not kws:
                return self.map_call(vals[0], vals[1], st, fr, e)
            if star:
                vals = vals + [op('star', toT(s)) for s in star]
            names = list(kv)

            def go(*a):
                if any(isinstance(x, Raise) for x in a):
                    return RAISE
                return vglib.libcall(self, fv.meta[0], [self.tv(x, st, fr) for x in a[:len(vals)]], {k: self.tv(x, st, fr) for k, x in zip(names, a[len(vals):])}, st, fr)
            if fv.meta[0].startswith(('numpy.random.', 'random.')) and not fv.meta[0].endswith(('default_rng', 'RandomState')):
                return vglib.rng_call(self, fv.meta[0], [collapse(self.tv(v, st, fr)) for v in vals], {k: collapse(self.tv(v, st, fr)) for k, v in kv.items()}, st)
            return lift(go, *(vals + [kv[n] for n in names]))
        if isinstance(fv, (T, Obj, Tup)):
            names = sorted(kv)
            return lift(lambda *a: op('apply', toT(a[0], self), *[toT(x, self) for x in a[1:]], meta=tuple(names) or None), fv, *(vals + list(star) + [kv[n] for n in names]))
        raise Undecided('call of %s' % type(fv).__name__)

    def tv(self, x, st, fr):
        """closures handed to library code become their canonical lambda term"""
        if isinstance(x, Fn):
            return self.lam(x, st, fr)
        if isinstance(x, Tup) and any(isinstance(i, Fn) for i in x.items):
            return Tup(x.kind, [self.tv(i, st, fr) for i in x.items], x.keys)
        return x

    def lam(self, fn, st=None, fr=None):
        if fn.func is not None and fn.frame is None and fn.bound is None and fn.partial is None and fn.func.qual in self.opaque:
            return leaf('func', fn.func.qual)
        node = fn.node
        a = node.args
        if a.vararg or a.kwarg or fn.partial is not None or fn.bound is not None or len(self.stack) > self.maxdepth or (fn.func is not None and fn.func in self.stack):
            return leaf('func', fn.func.qual if fn.func else 'lambda')
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        phs = [fresh() for _ in ps]
        s2 = st.copy() if st is not None else State({}, {('rng',): leaf('rng')}, TRUE)
        s2.pc = TRUE
        f2 = Frame(fn.func, fn.module, node, parent=fn.frame)
        s2.frames[f2.id] = {}
        if fn.frame is not None and fn.frame.id not in s2.frames:
            return leaf('func', 'lambda')
        for p, ph in zip(ps, phs):
            s2.frames[f2.id][p] = newcell(s2, ph)
        self.stack.append(fn.func)
        try:
            v, end, rc = self.run_body(f2, node, s2)
        finally:
            self.stack.pop()
        v = ite(rc, RAISE, v)
        h = v.ht + 1
        m = {ph.fp: T('idx', (), H('larg', h, i), meta=(h, i)) for i, ph in enumerate(phs)}
        b = subst(v, m, self)
        return T('lambda', (b,), H('lambda', len(ps), b.fp), meta=(h, len(ps)), ht=h)

    def map_call(self, f, it, st, fr, e):
        def over(itv):
            d = self.iter_desc(itv)
            if d[0] == 'unroll':
                return Tup('list', [self.call_value(f, [(None, x)], {}, [], st, fr, e) for x in d[1]])
            idx = fresh()
            v = self.call_value(f, [(None, d[2](idx))], {}, [], st, fr, e)
            return self.close_map(d[1], idx, v)
        return lift(over, it)

    def construct(self, cls, args, kws, star, st, fr, e):
        init = self.P.find_method(cls, '__init__')
        o = Obj(cls, None, {})
        if init is None:
            return o
        if init.qual in self.opaque or cls.qual in self.opaque or init in self.stack:
            names = sorted(kws)
            return lift(lambda *a: op('new:' + cls.qual, *[toT(x, self) for x in a], meta=tuple(names) or None), *([v for _, v in args] + [kws[n][1] for n in names]))
        sc = newcell(st, o)
        self.call_repo(init, args, kws, star, st, fr, e, selfcell=sc)
        if st.dead:
            return RAISE
        return st.heap[sc]

    def call_closure(self, fn, args, kws, star, st, fr):
        if star:
            raise Undecided('star call of a closure')
        f2 = Frame(fn.func, fn.module, fn.node, parent=fn.frame)
        a = fn.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for p, (ex, v) in zip(ps, args):
            c = self.cell_of(ex.id, st, fr) if isinstance(ex, ast.Name) else None
            env[p] = c if c is not None else newcell(st, v)
        for k, (ex, v) in kws.items():
            env[k] = newcell(st, v)
        defs = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if p in defs:
                    env[p] = newcell(st, self.ev(defs[p], st, fn.frame or fr))
                else:
                    return RAISE
        return self.enter(f2, fn.node, env, st, fr, fn.func)

    def call_func(self, f, mapping, st, fr):
        args = {p: (None, v) for p, v in mapping.items()}
        return self.call_repo(f, [], {p: v for p, v in args.items()}, [], st, fr, None)

    def call_repo(self, f, args, kws, star, st, fr, e, selfcell=None):
        q = f.qual
        if q in IGNORED_REPO:
            return NONE
        pos = list(f.pos)
        bound = {}
        if selfcell is not None and pos and not f.is_static:
            bound[pos.pop(0)] = ('cell', selfcell)
        extra = []
        for ex, v in args:
            if pos:
                bound[pos.pop(0)] = (ex, v)
            else:
                extra.append(v)
        exkw = {}
        for k, (ex, v) in kws.items():
            if k in f.pos or k in f.kwonly:
                if k in bound:
                    return RAISE
                bound[k] = (ex, v)
            else:
                exkw[k] = v
        if extra and f.vararg is None:
            self.kill(st, fr)
            return RAISE
        if exkw and f.kwarg is None:
            self.kill(st, fr)
            return RAISE
        hide = q in self.opaque or q in NEVER_INLINE or star or self.stack.count(f) > 1 or len(self.stack) >= self.maxdepth
        if hide:
            allv, names = [], []
            for p in f.pos + f.kwonly:
                if p in bound:
                    v = st.heap[bound[p][1]] if bound[p][0] == 'cell' else bound[p][1]
                elif p in f.defaults:
                    v = self.default(f, p, st)
                else:
                    v = UNBOUND
                allv.append(v)
            for k in sorted(exkw):
                allv.append(exkw[k])
                names.append(k)
            allv += extra + list(star)
            inout = f.pos[INPLACE[q]] if q in INPLACE and len(f.pos) > INPLACE[q] and not star else None
            if inout in bound:
                # filled in by the call
                ex, v = bound[inout]
                c = v if ex == 'cell' else self.cell_of(ex.id, st, fr) if isinstance(ex, ast.Name) else None
                if c is not None:
                    st.heap[c] = lift(lambda *a: RAISE if any(isinstance(x, Raise) for x in a) else op('repo:' + q, *[toT(self.tv(x, st, fr), self) for x in a], meta=(tuple(names), len(star)) if names or star else None), *allv)
                    return NONE
            return lift(lambda *a: RAISE if any(isinstance(x, Raise) for x in a) else op('repo:' + q, *[toT(self.tv(x, st, fr), self) for x in a], meta=(tuple(names), len(star)) if names or star else None), *allv) if allv else op('repo:' + q)
        self.inlined.add(q)
        self.consulted.add(q)
        env = {}
        for p, (ex, v) in bound.items():
            if ex == 'cell':
                env[p] = v
            else:
                c = self.cell_of(ex.id, st, fr) if isinstance(ex, ast.Name) else None
                env[p] = c if c is not None else newcell(st, v)
                if isinstance(v, Raise):
                    return v
        for p in f.pos + f.kwonly:
            if p not in env:
                if p in f.defaults:
                    env[p] = newcell(st, self.default(f, p, st))
                else:
                    self.kill(st, fr)
                    return RAISE
        if f.vararg:
            env[f.vararg] = newcell(st, Tup('tuple', extra))
        if f.kwarg:
            ks = sorted(exkw)
            env[f.kwarg] = newcell(st, Tup('dict', [exkw[k] for k in ks], [C(k) for k in ks]))
        f2 = Frame(f, f.module, f.node)
        lvals = {}
        if e is not None:
            for p, (ex, v) in bound.items():
                if isinstance(ex, (ast.Attribute, ast.Subscript)):
                    lvals[p] = (ex, v)
        cells = dict(env)
        r = self.enter(f2, f.node, env, st, fr, f)
        if not st.dead:
            for p, (ex, v) in lvals.items():
                nv = st.heap.get(cells[p])
                if nv is not None and nv.fp != v.fp:
                    self.assign_back(ex, nv, st, fr)
        return r

    def kill(self, st, fr):
        fr.raises.append(st.pc)
        st.pc = FALSE

    def default(self, f, p, st):
        fr = Frame(None, f.module, None)
        s2 = State({fr.id: {}}, dict(st.heap), TRUE)
        return self.ev(f.defaults[p], s2, fr)

    def enter(self, f2, node, env, st, fr, f):
        outer = st.pc
        line = tuple(terms.CUR)
        f2.base = band(fr.base, st.pc)
        sc = st.copy()
        sc.pc = TRUE
        sc.frames[f2.id] = env
        self.stack.append(f)
        if len(self.stack) > self.maxdepth + 6:
            self.stack.pop()
            raise Undecided('call depth')
        try:
            v, end, rc = self.run_body(f2, node, sc)
        finally:
            self.stack.pop()
        terms.CUR[0], terms.CUR[1] = line
        if end is None:
            fr.raises.append(outer)
            st.pc = FALSE
            return RAISE
        if rc.const is not False:
            fr.raises.append(band(outer, rc))
            outer = band(outer, bnot(rc))
        # frames of finished calls stay reachable only through closures
        st.frames, st.heap, st.pc = end.frames, end.heap, outer
        if not isinstance(v, Fn):
            st.frames = {k: w for k, w in st.frames.items() if k != f2.id or contains_fn(v)}
        return v


class FoldT:
    """remembers how a fold term was built so that substitution can rebuild it"""
    table = {}

    @staticmethod
    def of(t, recipe):
        FoldT.table[id(t)] = (t, recipe)
        return t

    @staticmethod
    def get(t):
        r = FoldT.table.get(id(t))
        return r[1] if r is not None and r[0] is t else None


def contains_fn(v):
    if isinstance(v, Fn):
        return True
    if isinstance(v, Tup):
        return any(contains_fn(i) for i in v.items)
    if isinstance(v, G):
        return contains_fn(v.hi) or contains_fn(v.lo)
    if isinstance(v, Obj):
        return any(contains_fn(i) for i in v.fields.values())
    return False


def as_load(t):
    import copy
    c = copy.copy(t)
    c.ctx = ast.Load()
    return c


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def leaves(v):
    if isinstance(v, G):
        return leaves(v.hi) + leaves(v.lo)
    return [v]


def leaves_map(u, f, me):
    """apply f to the leaves of u (None anywhere -> None); conditions must not depend on placeholder me"""
    if isinstance(u, G):
        if me in u.atom.subj.phs:
            return None
        a = leaves_map(u.hi, f, me)
        if a is None:
            return None
        b = leaves_map(u.lo, f, me)
        if b is None:
            return None
        return ite(bool_of_atom(u.atom), a, b)
    return f(u)


def collapse_any(v):
    return collapse(v) if isinstance(v, G) else v


def toT(v, interp=None):
    if isinstance(v, T):
        return v
    if isinstance(v, G):
        return collapse(v)
    if isinstance(v, Tup):
        if v.kind in ('list', 'tuple', 'st'):
            return op('seq', v, head=None)
        return op('seq', v, head=None)
    if isinstance(v, Obj):
        if not v.fields and v.base is not None:
            return v.base if isinstance(v.base, T) else op('obj', v, head=None)
        return op('obj', v, head=None)
    if isinstance(v, Fn):
        if interp is not None:
            try:
                return interp.lam(v)
            except KeyError:
                pass
        return leaf('func', v.func.qual if v.func is not None else 'lambda')
    if isinstance(v, Raise):
        return leaf('raised')
    raise Undecided('value')


def totup(v):
    return toT(v)


def spread(t):
    """distribute conditionals out of an index tuple"""
    if any(isinstance(i, G) for i in t.items):
        return lift(lambda *a: Tup(t.kind, a), *t.items)
    return t


def bind1(kind, count, idx, body, interp):
    """close a loop body over its index placeholder"""
    if isinstance(count, G):
        count = collapse(count)
    if kind == 'map':
        r = vglib.vectorise(count, idx, body)
        if r is not None:
            return r
    h = body.ht + 1
    mk = T('idx', (), H('idx', h), meta=(h,))
    b = subst(body, {idx.fp: mk}, interp)
    if kind == 'map' and isinstance(b, T) and b.op == 'index' and b.args[1].fp == mk.fp and mk.fp not in marker_fps(b.args[0]):
        x = b.args[0]
        if vglib.length(x).fp == count.fp:
            return x
    return T(kind, (count, b), H('op', kind, h, count.fp, b.fp), meta=(h,), head=kind, ht=h)


def marker_fps(v):
    out = set()
    seen = set()

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, T):
            if x.op == 'idx':
                out.add(x.fp)
            for a in x.args:
                go(a)
        elif isinstance(x, G):
            go(x.atom.subj)
            go(x.hi)
            go(x.lo)
        elif isinstance(x, Tup):
            for i in x.items:
                go(i)
        elif isinstance(x, Obj):
            if x.base is not None:
                go(x.base)
            for i in x.fields.values():
                go(i)
    go(v)
    return out


def subst(v, m, interp):
    """replace terms by value number (placeholders, markers or whole subterms) and renormalise"""
    memo = {}
    uids = None
    keys = set(m)

    def go(x):
        k = id(x)
        r = memo.get(k)
        if r is not None:
            return r[1]
        if x.fp in keys:
            y = m[x.fp]
        elif isinstance(x, T):
            y = rebuild(x)
        elif isinstance(x, G):
            y = goG(x)
        elif isinstance(x, Tup):
            it = [go(i) for i in x.items]
            y = x if all(a is b for a, b in zip(it, x.items)) else Tup(x.kind, it, x.keys)
            if x.keys is not None:
                ks = [go(i) for i in x.keys]
                if not all(a is b for a, b in zip(ks, x.keys)):
                    y = Tup(x.kind, it, ks)
        elif isinstance(x, Obj):
            b = go(x.base) if x.base is not None else None
            fs = {n: go(i) for n, i in x.fields.items()}
            if b is x.base and all(fs[n] is x.fields[n] for n in fs):
                y = x
            elif isinstance(b, Obj):
                f2 = dict(b.fields)
                f2.update(fs)
                y = Obj(b.cls or x.cls, b.base, f2)
            elif isinstance(b, (G, Tup)):
                y = Obj(x.cls, toT(b), fs)
            else:
                y = Obj(x.cls, b, fs)
        else:
            y = x
        memo[k] = (x, y)
        return y

    def goG(x):
        s = go(x.atom.subj)
        hi, lo = go(x.hi), go(x.lo)
        if s is x.atom.subj and hi is x.hi and lo is x.lo:
            return x
        if s is x.atom.subj:
            c = bool_of_atom(x.atom)
        else:
            a = x.atom
            c = lift(lambda q: retest(interp, a, q), s)
            c = interp.truth(c)
        return ite(c, hi, lo)

    def rebuild(x):
        if not x.args:
            return x
        rec = FoldT.get(x)
        if rec is not None:
            if not (x.phs & want_phs()) and not need_deep():
                return x
            return refold(rec)
        if x.op in ('map', 'last'):
            h = x.meta[0]
            ph = fresh()
            mk = H('idx', h)
            count = go(x.args[0])
            if mk in keys:
                body0 = x.args[1]
                if count is x.args[0]:
                    pass
                # our own marker is shadowed here
                inner = {k: v for k, v in m.items() if k != mk}
                b = subst(subst(body0, {mk: ph}, interp), inner, interp) if inner else subst(body0, {mk: ph}, interp)
            else:
                b = go(x.args[1])
                if b is x.args[1] and count is x.args[0]:
                    return x
                b = subst(b, {mk: ph}, interp)
            return lift(lambda c, *_: bind1(x.op, c, ph, b, interp), count) if not isinstance(count, G) else bind1(x.op, collapse(count), ph, b, interp)
        args = [go(a) for a in x.args]
        if all(a is b for a, b in zip(args, x.args)):
            return x
        if x.op == 'lambda':
            return T('lambda', tuple(args), H('lambda', x.meta[1], args[0].fp), meta=x.meta, ht=x.meta[0])
        if x.op == 'sel':
            return collapse(args[0])
        if x.op == '+':
            c, d = x.meta
            cos = [co for co, _ in d.values()]
            return lift(lambda *a: add([C(c)] + [mul(C(co), toT(t)) for co, t in zip(cos, a)]), *args)
        if x.op == '*':
            c, d = x.meta
            es = [e for e, _ in d.values()]

            def prod(*a):
                r = C(c)
                for e, t in zip(es, a):
                    r = mul(r, power(toT(t), C(e)))
                return r
            return lift(prod, *args)
        return lift(lambda *a: vglib.remake(interp, x, a), *args)

    def want_phs():
        return _phs

    def need_deep():
        return _deep

    def refold(rec):
        if rec[0] == 'fold':
            _, count, idx, phs, init, live, sysk, k = rec
            c2 = go(count)
            i2 = {j: (go(init[j]) if j in sysk else init[j]) for j in init}
            l2 = {j: (go(live[j]) if j in sysk else live[j]) for j in live}
            if isinstance(c2, G):
                c2 = collapse(c2)
            lp = {p.meta[0] for p in phs.values()}
            return interp.close_var(c2, idx, phs, i2, l2, k, lp)
        _, count, idx, phs, init, upd, xpc, outs, k = rec
        bad = {p.meta[0] for p in phs.values()} | set(idx.phs)
        c2 = go(count) if count is not None else None
        if isinstance(c2, G):
            c2 = collapse(c2)
        r = interp._fold_exit(c2, idx, phs, {j: go(v) for j, v in init.items()}, {j: go(v) for j, v in upd.items()}, go(xpc), {k: go(outs[k])}, bad, 0)
        return r[k]

    # which placeholders are being replaced?  (value numbers of placeholders identify them)
    _phs = PhIndex(keys)
    _deep = any(k not in PHF for k in keys)
    return go(v)


class PhIndex:
    def __init__(self, keys):
        self.keys = keys

    def __rand__(self, other):
        return any(H('ph', u) in self.keys for u in other)


def retest(interp, a, q):
    """boolean value of atom a with its subject replaced by q"""
    if isinstance(q, Raise):
        return FALSE
    if a.kind == 'eq':
        return interp.same(q, a.data)
    if a.kind == 'isinst':
        return interp.isinst(q, a.data)
    if a.kind == 'truth':
        return interp.truth_leaf(q)
    if a.kind == 'pos':
        return vglib.pos(toT(q))
    if a.kind == 'zero':
        return vglib.equal(toT(q), ZERO)
    return bool_of_atom(Atom(a.kind, toT(q), a.data))
