"""Interprocedural information-flow (dependence) analysis: data and control dependences as tag sets.

Tags
  ('p', name)        a parameter of the function under summary
  ('cfg', mod, var)  a settable parameter of the package (modules const and conv)
  ('g', mod, var)    any other module-level variable
  ('s', attr)        a field of self
  ('c', name)        a variable of the enclosing function (closures)
  ('rngin',)         state of numpy's global generator on entry
  ('rngpyin',)       state of the standard library generator on entry
  ('draw', where)    a random draw happened
  ('osrng',)         a generator created without a seed
  ('clock',) ('env',) ('id',) ('fsorder',) ('file',)
"""
import ast
from .loader import own_walk

E0 = frozenset()
RZ = frozenset({('rz',)})     # a raise whatever decides it
CFG_MODULES = ('const', 'conv')
MESSAGE = {'print', 'warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'sys.stdout.write', 'sys.stdout.flush', 'sys.stderr.write',
           'logging.info', 'logging.warning', 'logging.debug', 'logging.getLogger', 'pprint.pprint'}
MESSAGE_REPO = {'helper_functions.print_msg', 'usefuls.loading_verbose', 'usefuls.loading_msg', 'mfp_np.loading_verbose',
                'lightcone.print_msg'}
CLOCK = {'time.time', 'time.perf_counter', 'time.clock', 'time.process_time', 'time.monotonic', 'time.time_ns', 'time.ctime',
         'time.strftime', 'time.localtime', 'time.gmtime', 'time.asctime', 'datetime.datetime.now', 'datetime.datetime.utcnow',
         'datetime.datetime.today', 'datetime.date.today', 'datetime.now'}
ENVF = {'os.getenv', 'os.getpid', 'os.urandom', 'os.getcwd', 'os.environ.get', 'uuid.uuid4', 'uuid.uuid1', 'socket.gethostname',
        'tempfile.mkdtemp', 'tempfile.mktemp', 'platform.node', 'getpass.getuser', 'os.getlogin', 'secrets.token_hex',
        'os.cpu_count', 'multiprocessing.cpu_count'}
IDF = {'id', 'hash'}
FSORDER = {'glob.glob', 'os.listdir', 'os.scandir', 'glob.iglob', 'os.walk'}
SORTERS = {'sorted', 'numpy.sort', 'min', 'max', 'len', 'numpy.unique', 'set', 'natsort.natsorted', 'any', 'all', 'sum'}
VERBOSE_KW = {'verbose', 'disable', 'desc', 'leave', 'ncols', 'disable_progress', 'show_progress', 'progress'}
DRAW_NOT = {'seed', 'get_state', 'set_state', 'RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'mtrand',
            'Philox', 'bit_generator', 'BitGenerator'}
WRITERS = {'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.savetxt', 'pickle.dump', 'json.dump', 'h5py.File',
           'yaml.dump', 'yaml.safe_dump', 'toml.dump', 'joblib.dump', 'astropy.io.fits.writeto'}
WRITE_METHODS = {'write', 'writelines', 'tofile', 'writeto', 'savefig', 'to_csv', 'dump', 'create_dataset', 'writerow'}


class Sum:
    def __init__(self):
        self.ret = E0
        self.rtup = False         # tags of the elements when every return is a tuple of one length (False: no return seen, None: unknown)
        self.cmut = {}            # variable of an enclosing function -> tags stored into it
        self.raises = E0          # control tags of raise/assert statements
        self.io = E0
        self.other = E0           # plotting and unknown statement-level effects
        self.msg = E0
        self.fields = {}
        self.gw = {}
        self.mut = {}             # param -> tags stored into it
        self.rng_out = frozenset({('rngin',)})
        self.draws = []           # (line, text, rng tags, kind)
        self.stores = []          # (target node, value tags without control, line): writes to fields of self, to module state and to function or class attributes
        self.exc = {}             # exception name -> tags
        self.calls = []           # (callee, {param: tags}, line, forwards *args/**kwargs, control tags)

    def drop(self, t):
        d = frozenset({t})
        for k in ('ret', 'raises', 'io', 'other'):
            setattr(self, k, getattr(self, k) - d)
        for m in (self.fields, self.gw, self.mut, self.cmut):
            for k in m:
                m[k] -= d
        if self.rtup:
            self.rtup = tuple(x - d for x in self.rtup)
        self.draws = [(a, b, c - d, e) for a, b, c, e in self.draws]

    def key(self):
        return (self.ret, self.raises, self.io, self.other, tuple(sorted(self.fields.items(), key=lambda x: x[0])),
                tuple(sorted(self.gw.items())), tuple(sorted(self.mut.items())), self.rng_out, len(self.draws),
                tuple(sorted(self.exc.items())), self.rtup, tuple(sorted(self.cmut.items())))


class Deps:
    """assume: {(func qual): {param: value}} specialisation; values: 'GIVEN_INT' or ast-literal python values."""

    def __init__(self, project, assume=None, mask=()):
        self.P = project
        self.assume = assume or {}
        self.mask = mask          # {(function, parameter)}: proven not to influence anything
        self.sums = {f: Sum() for f in project.all_functions()}
        self.modtags = {}
        self._order = list(project.all_functions())
        self.repo_methods = {f.name for f in self._order if f.cls is not None}
        self._spec = {}
        for it in range(10):
            ch = False
            for f in self._order:
                s = FDeps(self, f, self.assume.get(f.qual)).run()
                for g, p in self.mask:
                    if g is f:
                        s.drop(('p', p))
                if s.key() != self.sums[f].key():
                    ch = True
                self.sums[f] = s
            if not ch:
                break
        self.rounds = it + 1
        self._spec = {}

    def special(self, f, given):
        """summary of f for calls whose parameters in `given` are known to be supplied values"""
        k = (f, given)
        if k not in self._spec:
            self._spec[k] = self.sums[f]            # recursion: fall back on the general summary
            a = dict(self.assume.get(f.qual) or {})
            a.update({p: 'GIVEN' for p in given})
            self._spec[k] = FDeps(self, f, a).run()
        return self._spec[k]


class FDeps:
    def __init__(self, D, f, assume=None):
        self.D, self.P, self.f = D, D.P, f
        self.assume = assume or {}
        self.s = Sum()
        self.locals = {n.id for n in own_walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.params)
        self.globals = getattr(f, 'globals_', set())
        self.locals -= self.globals
        self.shadow = self.locals - set(self.P.local_imports(f)) - set(f.nested)
        self.alias = self._aliases()
        self.ctx = E0       # control context (value)
        self.brk = []       # stack: tags controlling break/continue
        self.fn_extra = None
        self.tup = {}
        self.exits = E0     # control tags of returns met inside loops

    def _aliases(self):
        g = {}
        def find(x):
            while g.get(x, x) != x:
                x = g[x]
            return x
        for n in own_walk(self.f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                while isinstance(v, (ast.Subscript, ast.Attribute)) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('reshape', 'ravel', 'view', 'swapaxes', 'transpose')):
                    v = v.func.value if isinstance(v, ast.Call) else v.value
                if isinstance(v, ast.Name) and v.id in self.locals:
                    a, b = find(n.targets[0].id), find(v.id)
                    if a != b:
                        g[a] = b
        groups = {}
        for x in self.locals:
            groups.setdefault(find(x), set()).add(x)
        return {x: groups[find(x)] for x in self.locals}

    def run(self):
        f = self.f
        env = {'@rng': frozenset({('rngin',)}), '@pyrng': frozenset({('rngpyin',)})}
        for p in f.params:
            env[p] = E0 if p == f.self_name else frozenset({('p', p), ('po', p)})
        self.exit_env = None
        body = f.node.body if isinstance(f.node.body, list) else [ast.Return(f.node.body)]
        out = self.block(body, env)
        fin = merge(out, self.exit_env)
        if fin is not None:
            self.s.rng_out = fin.get('@rng', E0)
            for p in f.params:
                if p != f.self_name:
                    t = fin.get('@mut:' + p, E0)
                    if t:
                        self.s.mut[p] = t
        return self.s

    # ------------------------------------------------------------------ statements
    def ev_tuple(self, e, env):
        """tags of an expression, and of its elements when it is visibly a tuple"""
        if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
            ts = tuple(self.ev(x, env) for x in e.elts)
            return frozenset().union(*ts) if ts else E0, ts
        if isinstance(e, ast.Name):
            return self.ev(e, env), env.get('@tup:' + e.id)
        self.tup.pop(id(e), None)
        t = self.ev(e, env)
        return t, self.tup.get(id(e))

    def block(self, stmts, env):
        for st in stmts:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            t, tt = self.ev_tuple(st.value, env)
            if len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and tt is not None and len(tt) == len(st.targets[0].elts) and not any(isinstance(x, ast.Starred) for x in st.targets[0].elts):
                for xe, x in zip(st.targets[0].elts, tt):
                    env = self.assign(xe, x, env, st)
                return env
            if len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and tt is not None and st.targets[0].id not in self.globals:
                env = self.assign(st.targets[0], t, env, st)
                env['@tup:' + st.targets[0].id] = tuple(x | self.ctx for x in tt)
                return env
            for x in st.targets:
                if isinstance(x, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(x.elts) == len(st.value.elts):
                    ts = [self.ev(v, env) for v in st.value.elts]
                    for xe, tt in zip(x.elts, ts):
                        env = self.assign(xe, tt, env, st)
                else:
                    env = self.assign(x, t, env, st)
            return env
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                return self.assign(st.target, self.ev(st.value, env), env, st)
            return env
        if isinstance(st, ast.AugAssign):
            t = self.ev(st.value, env)
            cur = self.ev(as_load(st.target), env)
            return self.assign(st.target, t | cur, env, st, aug=True)
        if isinstance(st, ast.Expr):
            return self.expr_stmt(st.value, env)
        if isinstance(st, ast.Return):
            t, tt = self.ev_tuple(st.value, env) if st.value is not None else (E0, None)
            self.s.ret |= t | self.ctx
            if tt is None or self.s.rtup is None or (self.s.rtup is not False and len(self.s.rtup) != len(tt)):
                self.s.rtup = None
            else:
                tt = tuple(x | self.ctx for x in tt)
                self.s.rtup = tt if self.s.rtup is False else tuple(x | y for x, y in zip(self.s.rtup, tt))
            self.exits |= self.ctx
            self.exit_env = merge(self.exit_env, env)
            return None
        if isinstance(st, ast.Raise):
            t = self.ev(st.exc, env) if st.exc is not None else E0
            self.s.raises |= self.ctx | t | RZ
            nm = exc_name(st.exc)
            self.s.exc[nm] = self.s.exc.get(nm, E0) | self.ctx
            return None
        if isinstance(st, ast.Assert):
            t = self.ev(st.test, env)
            self.s.raises |= self.ctx | t | RZ
            self.s.exc['AssertionError'] = self.s.exc.get('AssertionError', E0) | self.ctx | t
            return env
        if isinstance(st, ast.If):
            return self.if_(st.test, st.body, st.orelse, env)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            old = self.ctx
            self.ctx = old | it
            cur = env
            for _ in range(3):
                self.brk.append([None, E0])
                e = self.assign(st.target, it, dict(cur), st)
                e = self.block(st.body, e)
                b = self.brk.pop()
                new = merge(merge(cur, e), b[0])
                more = b[1] - self.ctx
                self.ctx |= b[1]
                if new == cur and not more:
                    break
                cur = new
            self.ctx = old | self.exits
            if st.orelse:
                cur = self.block(st.orelse, cur)
            return cur
        if isinstance(st, ast.While):
            old = self.ctx
            cur = env
            for _ in range(3):
                t = self.ev(st.test, cur)
                self.ctx = self.ctx | t
                self.brk.append([None, E0])
                e = self.block(st.body, dict(cur))
                b = self.brk.pop()
                new = merge(merge(cur, e), b[0])
                more = b[1] - self.ctx
                self.ctx |= b[1]
                if new == cur and not more:
                    break
                cur = new
            self.ctx = old | self.exits
            if st.orelse:
                cur = self.block(st.orelse, cur)
            return cur
        if isinstance(st, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1][0] = merge(self.brk[-1][0], env)
                self.brk[-1][1] |= self.ctx
            return None
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                t = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    env = self.assign(i.optional_vars, t, env, st)
            return self.block(st.body, env)
        if isinstance(st, ast.Try):
            a = self.block(st.body, dict(env))
            start = merge(dict(env), a)
            r = a
            if st.orelse and a is not None:
                r = self.block(st.orelse, a)
            for h in st.handlers:
                e = dict(start)
                if h.name:
                    e[h.name] = E0
                r = merge(r, self.block(h.body, e))
            if st.finalbody:
                r2 = self.block(st.finalbody, dict(r if r is not None else start))
                return r2 if r is not None else None
            return r
        if isinstance(st, ast.Delete):
            return env
        return env

    def if_(self, test, body, orelse, env):
        t = self.ev(test, env)
        v = self.static_test(test)
        if v is True:
            return self.block(body, env)
        if v is False:
            return self.block(orelse, env)
        old = self.ctx
        self.ctx = old | t
        a = self.block(body, dict(env))
        ca = self.ctx if a is not None else E0
        self.ctx = old | t
        b = self.block(orelse, dict(env))
        cb = self.ctx if b is not None else E0
        inner = (ca | cb) - old - t     # a nested branch that left early
        if inner:
            old = old | t | inner
        if (a is None) != (b is None):
            dead = body if a is None else orelse
            if always_raises(dead):
                self.ctx = old
                self.s.raises |= old | t
            else:
                self.ctx = old | t      # the rest of the block runs only on one outcome
                # restore happens at the enclosing construct
                return self._ctxkeep(a if a is not None else b, old | t, old)
        else:
            self.ctx = old
        return merge(a, b)

    def _ctxkeep(self, env, new, old):
        # control dependence of everything after an early return / break
        self.ctx = new
        return env

    def static_test(self, t):
        """outcome of a test under the specialisation of parameters (None = unknown)."""
        if not self.assume:
            return None
        return static_test(t, self.assume, self.reassigned(), self)

    def once(self, name):
        """the single expression assigned to a local variable"""
        if name in self.f.params:
            return None
        found = [n for n in own_walk(self.f.node) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
        if len(found) != 1:
            return None
        for n in own_walk(self.f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] is found[0]:
                return n.value
        return None

    def reassigned(self):
        if not hasattr(self, '_re'):
            self._re = {n.id for n in own_walk(self.f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return self._re

    def assign(self, t, tags, env, st, aug=False):
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            b, keys = t, E0
            while isinstance(b, (ast.Subscript, ast.Attribute)) and not (isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name)):
                if isinstance(b, ast.Subscript):
                    keys |= self.ev(b.slice, env)
                b = b.value
            self.s.stores.append((t, b, tags, keys, st))
        tags = tags | self.ctx
        if isinstance(t, ast.Name):
            env = dict(env)
            if t.id in self.globals:
                k = (self.f.module.name, t.id)
                self.s.gw[k] = self.s.gw.get(k, E0) | tags
                env['@g:' + t.id] = tags
            else:
                env[t.id] = tags
                env.pop('@tup:' + t.id, None)
                if aug:
                    for x in self.alias.get(t.id, ()):
                        if x != t.id and x in env:
                            env[x] = env[x] | tags
            return env
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                env = self.assign(e.value if isinstance(e, ast.Starred) else e, tags, env, st)
            return env
        if isinstance(t, ast.Starred):
            return self.assign(t.value, tags, env, st)
        if isinstance(t, ast.Subscript):
            tags = tags | self.ev(t.slice, env)
            return self.taint(t.value, tags, env)
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.f.self_name:
                env = dict(env)
                k = 'self.' + t.attr
                env[k] = tags
                self.s.fields[t.attr] = self.s.fields.get(t.attr, E0) | tags
                return env
            b = self.P.resolve_expr(self.f.module, t.value, self.f, self.shadow)
            if b and b[0] == 'mod':
                k = (b[1].name, t.attr)
                self.s.gw[k] = self.s.gw.get(k, E0) | tags
                return env
            return self.taint(t.value, tags, env)
        return env

    def taint(self, base, tags, env):
        """weak update of the variable at the base of an access path"""
        env = dict(env)
        b = base
        while isinstance(b, (ast.Subscript, ast.Attribute, ast.Call)):
            if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == self.f.self_name:
                k = 'self.' + b.attr
                env[k] = env.get(k, frozenset({('s', b.attr)})) | tags
                self.s.fields[b.attr] = self.s.fields.get(b.attr, E0) | tags
                return env
            b = b.func if isinstance(b, ast.Call) else b.value
        if isinstance(b, ast.Name):
            if b.id in self.globals or b.id not in self.locals:
                bb = self.P.lookup(self.f.module, b.id, self.f)
                if bb and bb[0] == 'var':
                    k = (bb[1].name, bb[2])
                    self.s.gw[k] = self.s.gw.get(k, E0) | tags
                elif bb is None or bb[0] not in ('ext', 'ext?', 'mod', 'builtin', 'func', 'class'):
                    env[b.id] = env.get(b.id, E0) | tags
                    if self.f.parent is not None:
                        self.s.cmut[b.id] = self.s.cmut.get(b.id, E0) | tags
                return env
            for x in self.alias.get(b.id, {b.id}):
                if x in env or x == b.id:
                    env[x] = env.get(x, E0) | tags
                    if '@tup:' + x in env:
                        env['@tup:' + x] = tuple(y | tags for y in env['@tup:' + x])
                    if x in self.f.params:
                        env['@mut:' + x] = env.get('@mut:' + x, E0) | tags
        return env

    def expr_stmt(self, e, env):
        if isinstance(e, ast.Call):
            b = self.P.resolve_expr(self.f.module, e.func, self.f, self.shadow)
            kind, name = self.call_name(b)
            if self.is_message(b, name, e):
                t = self.args_tags(e, env)
                self.s.msg |= t | self.ctx
                return self.after_call(e, env)
            t = self.ev(e, env)
            env = self.after_call(e, env)
            if isinstance(e.func, ast.Attribute) and b is None:
                at = self.args_tags(e, env) | self.ctx
                # a method call in statement position changes its receiver
                recv = e.func.value
                if not (isinstance(recv, ast.Name) and recv.id == self.f.self_name):
                    env = self.taint(recv, at, env)
                if e.func.attr in WRITE_METHODS:
                    self.s.io |= t | at | self.ctx
                elif e.func.attr in ('sort',):
                    k = root_name(recv)
                    if k and k in env:
                        env = dict(env); env[k] = unordered(env[k])
                else:
                    r = root_name(recv)
                    if r is None or (r not in self.locals):
                        self.s.other |= t | self.ctx
                    elif r in self.locals and self.external_object(r):
                        self.s.other |= t | self.ctx
            elif kind in ('ext', 'ext?'):
                if name in WRITERS:
                    self.s.io |= t | self.ctx
                elif name.startswith('numpy.random.') or name.startswith('random.') or name in CLOCK or name.startswith('gc.') or name == 'time.sleep':
                    pass
                elif name.startswith('numpy.') and e.args:
                    env = self.taint(e.args[0], self.args_tags(e, env) | self.ctx, env)
                else:
                    self.s.other |= t | self.ctx
            elif kind == 'builtin' and name in ('setattr',) and e.args:
                env = self.taint(e.args[0], self.args_tags(e, env) | self.ctx, env)
            return env
        self.ev(e, env)
        return env

    def external_object(self, name):
        for n in own_walk(self.f.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets; v = n.value
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(i.optional_vars)):
                        return True
                continue
            else:
                continue
            if any(isinstance(x, ast.Name) and x.id == name for t in tg for x in ast.walk(t)):
                if isinstance(v, ast.Call):
                    b = self.P.resolve_expr(self.f.module, v.func, self.f, self.shadow)
                    if b and b[0] in ('ext', 'ext?') and (b[1].startswith('matplotlib') or b[1].startswith('h5py')):
                        return True
                    if b and b[0] == 'builtin' and b[1] == 'open':
                        return True
        return False

    def call_name(self, b):
        if b is None:
            return None, ''
        if b[0] in ('ext', 'ext?', 'builtin'):
            return b[0], b[1]
        if b[0] == 'func':
            return 'func', b[1].qual
        if b[0] == 'class':
            return 'class', b[1].qual
        return b[0], ''

    def is_message(self, b, name, e):
        if name in MESSAGE or name in MESSAGE_REPO:
            return True
        if isinstance(e.func, ast.Attribute) and b is None:
            # progress-bar objects
            if e.func.attr in ('set_description', 'set_postfix', 'set_postfix_str', 'refresh') or \
               (e.func.attr in ('update', 'close') and isinstance(e.func.value, ast.Name) and 'bar' in e.func.value.id.lower()):
                return True
        return False

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m:
            return m(e, env)
        r = E0
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.comprehension, ast.keyword, ast.FormattedValue)):
                r |= self.ev(c, env)
        return r

    def ev_Constant(self, e, env):
        return E0

    def ev_keyword(self, e, env):
        return self.ev(e.value, env)

    def ev_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.globals:
            if '@g:' + e.id in env:
                return env['@g:' + e.id]
        elif e.id in self.locals:
            return E0
        g = self.f.parent
        while g is not None:
            if e.id in g.params or any(isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in own_walk(g.node)):
                return frozenset({('c', e.id)})
            g = g.parent
        return self.binding_tags(self.P.lookup(self.f.module, e.id, self.f), env)

    def binding_tags(self, b, env):
        if not b:
            return E0
        if b[0] == 'var':
            m = b[1].name
            return frozenset({('cfg' if m in CFG_MODULES else 'g', m, b[2])})
        if b[0] == 'func':
            # function used as a value: everything it depends on besides its arguments
            s = self.D.sums.get(b[1])
            return self.nonparam(s, b[1], env) if s else E0
        if b[0] == 'class':
            r = E0
            for m in b[1].methods.values():
                r |= self.nonparam(self.D.sums[m], m, env)
            return r
        if b[0] == 'ext' and b[1] == 'os.environ':
            return frozenset({('env',)})
        return E0

    def nonparam(self, s, f, env):
        r = set()
        for t in s.ret | s.raises | s.io:
            if t[0] in ('p', 's', 'po', 'rz'):
                continue
            if t[0] == 'c':
                if t[1] in env:
                    r |= env[t[1]]
                elif f.parent is not self.f:
                    r.add(t)
            elif t == ('rngin',):
                r |= env.get('@rng', E0)
            else:
                r.add(t)
        return frozenset(r)

    def ev_Attribute(self, e, env):
        b = self.P.resolve_expr(self.f.module, e, self.f, self.shadow)
        if b is not None:
            return self.binding_tags(b, env)
        if isinstance(e.value, ast.Name) and e.value.id == self.f.self_name:
            k = 'self.' + e.attr
            if k in env:
                return env[k] | env.get('self.*', E0)
            cls = self.f.cls
            meth = self.P.find_method(cls, e.attr) if cls else None
            if meth is not None:
                return frozenset(t for t in self.D.sums[meth].ret if t[0] != 'p')
            return frozenset({('s', e.attr)}) | env.get('self.*', E0)
        return self.ev(e.value, env)

    def ev_Lambda(self, e, env):
        e2 = dict(env)
        for a in e.args.args:
            e2[a.arg] = E0
        r = self.ev(e.body, e2)
        for d in e.args.defaults:
            r |= self.ev(d, env)
        return r

    def comp(self, e, env, elts):
        env = dict(env)
        r = E0
        for g in e.generators:
            t = self.ev(g.iter, env)
            env = self.assign(g.target, t, env, e)
            r |= t
            for c in g.ifs:
                r |= self.ev(c, env)
        for x in elts:
            r |= self.ev(x, env)
        return r

    def ev_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])
    ev_SetComp = ev_ListComp
    ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, env):
        return self.comp(e, env, [e.key, e.value])

    def ev_IfExp(self, e, env):
        v = self.static_test(e.test)
        if v is True:
            return self.ev(e.body, env)
        if v is False:
            return self.ev(e.orelse, env)
        t = self.ev(e.test, env)
        old, self.ctx = self.ctx, self.ctx | t
        try:
            return t | self.ev(e.body, env) | self.ev(e.orelse, env)
        finally:
            self.ctx = old

    def ev_NamedExpr(self, e, env):
        t = self.ev(e.value, env)
        env[e.target.id] = t
        return t

    def args_tags(self, e, env):
        r = E0
        for a in e.args:
            r |= self.ev(a, env)
        for k in e.keywords:
            if k.arg in VERBOSE_KW:
                continue
            r |= self.ev(k.value, env)
        return r

    def after_call(self, e, env):
        return env

    def ev_Call(self, e, env):
        b = self.P.resolve_expr(self.f.module, e.func, self.f, self.shadow)
        if b is not None and b[0] == 'func':
            return self.repo_call(b[1], e, env, None)
        if b is not None and b[0] == 'class':
            init = self.P.find_method(b[1], '__init__')
            r = self.args_tags(e, env)
            for m in b[1].methods.values():
                r |= frozenset(t for t in self.nonparam(self.D.sums[m], m, env) if t[0] in ('cfg', 'g', 'clock', 'env', 'rngin', 'draw'))
            if init is not None:
                r |= self.repo_call(init, e, env, E0, new=True)
            return r
        kind, name = self.call_name(b)
        last = name.split('.')[-1]
        if b is None:
            if isinstance(e.func, ast.Attribute):
                return self.method(e, env)
            if isinstance(e.func, ast.Call) and len(e.func.args) == 1:
                bb = self.P.resolve_expr(self.f.module, e.func.func, self.f, self.shadow)
                if bb and bb[0] in ('ext', 'ext?') and bb[1].split('.')[-1] == 'delayed':
                    g = self.P.resolve_expr(self.f.module, e.func.args[0], self.f, self.shadow)
                    if g and g[0] == 'func':
                        return self.repo_call(g[1], e, env, None)
            r = self.ev(e.func, env) | self.args_tags(e, env)
            return r
        # --- library functions
        if name in MESSAGE:
            return E0
        if name.startswith('numpy.random.'):
            if last == 'seed':
                t = self.args_tags(e, env)
                env['@rng'] = (t | self.ctx | frozenset({('seeded', )})) if e.args or e.keywords else frozenset({('osrng',)})
                return E0
            if last in ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Philox'):
                if not e.args and not e.keywords:
                    return frozenset({('osrng',)})
                return self.args_tags(e, env) | frozenset({('gen',)})
            if last in ('get_state', 'set_state'):
                return self.args_tags(e, env)
            return self.draw(e, env, '@rng', name)
        if name.startswith('random.') and not name.startswith('random.Random'):
            if last == 'seed':
                env['@pyrng'] = self.args_tags(e, env) | self.ctx if e.args or e.keywords else frozenset({('osrng',)})
                return E0
            return self.draw(e, env, '@pyrng', name)
        if last == 'KMeans' or last == 'MiniBatchKMeans' or last == 'GaussianMixture':
            if not any(k.arg == 'random_state' for k in e.keywords):
                return self.args_tags(e, env) | self.draw(e, env, '@rng', name)
        if name in CLOCK:
            return frozenset({('clock',)})
        if name in ENVF:
            return frozenset({('env',)}) | self.args_tags(e, env)
        if name in IDF:
            return frozenset({('id',)}) | self.args_tags(e, env)
        r = self.args_tags(e, env)
        if name in FSORDER:
            return r | frozenset({('fsorder',), ('file',)})
        if name in SORTERS:
            return unordered(r)
        if name == 'open' or name in ('numpy.fromfile', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'pickle.load'):
            return r | frozenset({('file',)})
        if last == 'tqdm':
            r = E0
            for a in e.args[:1]:
                r |= self.ev(a, env)
            for k in e.keywords:
                if k.arg in ('iterable', 'total'):
                    r |= self.ev(k.value, env) if k.arg == 'iterable' else E0
            return r
        if name == 'range' and False:
            return r
        if isinstance(e.func, ast.Attribute):
            pass
        # writes through out=
        for k in e.keywords:
            if k.arg in ('out', 'output') and isinstance(k.value, (ast.Name, ast.Subscript)):
                new = self.taint(k.value, r | self.ctx, env)
                env.update(new)
        if name in WRITERS:
            self.s.io |= r | self.ctx
        return r

    def draw(self, e, env, state, name):
        t = env.get(state, E0)
        own = self.args_tags(e, env)
        rs = [k for k in e.keywords if k.arg in ('random_state', 'seed')]
        if rs:
            t = self.ev(rs[0].value, env)
        self.s.draws.append((e.lineno, name, t | self.ctx, self.f.where))
        # advancing the generator keeps its dependence
        return own | t | frozenset({('draw', self.f.where)})

    def method(self, e, env):
        recv = e.func.value
        name = e.func.attr
        if isinstance(recv, ast.Name) and recv.id == self.f.self_name and self.f.cls is not None:
            meth = self.P.find_method(self.f.cls, name)
            if meth is not None:
                return self.repo_call(meth, e, env, E0)
        if isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and recv.func.id == 'super' and self.f.cls is not None:
            for c in self.f.cls.bases:
                meth = self.P.find_method(c, name)
                if meth is not None:
                    return self.repo_call(meth, e, env, E0)
        rt = self.ev(recv, env)
        at = self.args_tags(e, env)
        if name == 'rvs' and not any(k.arg == 'random_state' for k in e.keywords):
            return rt | self.draw(e, env, '@rng', '.rvs')
        if name == 'random_state':
            pass
        if ('gen',) in rt or ('osrng',) in rt:
            # a draw from a generator object
            self.s.draws.append((e.lineno, '.' + name, rt | self.ctx, self.f.where))
            return rt | at | frozenset({('draw', self.f.where)})
        # a method that changes its receiver inside an expression (list.pop(), dict.setdefault())
        r = root_name(recv)
        if r is not None and r in self.locals and name in ('append', 'extend', 'insert', 'add', 'update', 'setdefault', 'fill', 'put'):
            env.update(self.taint(recv, at | self.ctx, env))
        if name == 'sort' and r in env:
            env[r] = unordered(env[r])
        if r is not None and r in self.locals and name in self.D.repo_methods:
            env.update(self.taint(recv, at | self.ctx, env))
        if name in WRITE_METHODS:
            self.s.io |= rt | at | self.ctx
        return rt | at

    def given_args(self, f, e, recv):
        bound = recv is not None and f.cls is not None and not f.is_static
        pos = list(f.pos[1:] if bound else f.pos)
        out = set()
        for p, a in list(zip(pos, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
            if isinstance(a, ast.Starred):
                break
            if isinstance(a, ast.Name) and a.id not in self.assume and self.once(a.id) is not None:
                a = self.once(a.id)
            if isinstance(a, ast.Name) and self.assume.get(a.id) == 'GIVEN' and a.id not in self.reassigned():
                out.add(p)
        return frozenset(out)

    def is_self(self, a):
        return isinstance(a, ast.Name) and a.id == self.f.self_name

    def any_field(self, tags, env):
        env['self.*'] = env.get('self.*', E0) | tags
        self.s.fields['*'] = self.s.fields.get('*', E0) | tags

    def own_fields(self, a, env):
        """an object handed to a function carries what was stored in its fields before"""
        r = E0
        if self.is_self(a):
            for k, t in env.items():
                if k.startswith('self.'):
                    r |= t
        return r

    def repo_call(self, f, e, env, recv, new=False):
        s = self.D.sums[f]
        if self.assume:
            g = self.given_args(f, e, recv)
            if g:
                s = self.D.special(f, g)
        bound = recv is not None and f.cls is not None and not f.is_static
        pos = list(f.pos[1:] if bound else f.pos)
        mp, star = {}, E0
        argexpr = {}
        for a in e.args:
            t = self.ev(a.value if isinstance(a, ast.Starred) else a, env) | self.own_fields(a, env)
            if isinstance(a, ast.Starred):
                star |= t
                continue
            if pos and not star:
                argexpr[pos[0]] = a
                mp[pos.pop(0)] = t
            elif f.vararg:
                mp[f.vararg] = mp.get(f.vararg, E0) | t
        dstar = E0
        for k in e.keywords:
            t = self.ev(k.value, env) | self.own_fields(k.value, env)
            if k.arg is None:
                dstar |= t
            elif k.arg in f.pos or k.arg in f.kwonly:
                mp[k.arg] = t
                argexpr[k.arg] = k.value
            elif f.kwarg:
                mp[f.kwarg] = mp.get(f.kwarg, E0) | t
        if star or dstar:
            for p in f.params:
                if p not in mp and p != f.self_name:
                    mp[p] = star | dstar

        self.s.calls.append((f, dict(mp), e.lineno, bool(star or dstar), self.ctx))

        def sub(tags):
            r = set()
            for t in tags:
                if t[0] == 'p':
                    a = mp.get(t[1], E0)
                    r |= a if ('po', t[1]) in tags else unordered(a)
                elif t[0] == 'po':
                    pass
                elif t[0] == 's':
                    if new:
                        pass
                    elif recv is not None:
                        k = 'self.' + t[1]
                        r |= env.get('self.*', E0)
                        if k in env:
                            r |= env[k]
                        else:
                            r.add(t)
                elif t[0] == 'c':
                    if f.parent is self.f or (self.f.parent is None):
                        r |= env.get(t[1], E0)
                    else:
                        r.add(t)
                elif t == ('rngin',):
                    r |= env.get('@rng', E0)
                elif t == ('rngpyin',):
                    r |= env.get('@pyrng', E0)
                else:
                    r.add(t)
            return frozenset(r)
        if f.qual in MESSAGE_REPO:
            self.s.msg |= sub(s.msg) | self.ctx
            return E0
        ret = sub(s.ret)
        self.s.raises |= sub(s.raises) | (self.ctx if s.raises else E0)
        for nme, t in s.exc.items():
            self.s.exc[nme] = self.s.exc.get(nme, E0) | sub(t)
        if s.io:
            self.s.io |= sub(s.io) | self.ctx
        if s.other:
            self.s.other |= sub(s.other) | self.ctx
        self.s.msg |= sub(s.msg)
        for k, t in s.gw.items():
            self.s.gw[k] = self.s.gw.get(k, E0) | sub(t) | self.ctx
        for p, t in s.mut.items():
            if p in argexpr:
                env.update(self.taint(argexpr[p], sub(t) | self.ctx, env))
                if self.is_self(argexpr[p]):
                    self.any_field(sub(t) | self.ctx, env)
        for x, t in s.cmut.items():
            if f.parent is self.f:
                env.update(self.taint(ast.Name(id=x, ctx=ast.Load()), sub(t) | self.ctx, env))
                if x == self.f.self_name:
                    self.any_field(sub(t) | self.ctx, env)
            elif f.parent is not None and self.f.parent is not None:
                self.s.cmut[x] = self.s.cmut.get(x, E0) | sub(t) | self.ctx
        if s.rtup:
            self.tup[id(e)] = tuple(sub(x) for x in s.rtup)
        if new:
            for t in s.fields.values():
                ret |= sub(t)
        elif recv is not None:
            for a, t in s.fields.items():
                st = sub(t) | self.ctx
                env['self.' + a] = env.get('self.' + a, E0) | st
                self.s.fields[a] = self.s.fields.get(a, E0) | st
        for d in s.draws:
            self.s.draws.append((d[0], d[1], sub(d[2]) | self.ctx, d[3]))
        if len(self.s.draws) > 200:
            self.s.draws = self.s.draws[:200]
        ro = sub(s.rng_out)
        env['@rng'] = ro if s.rng_out != frozenset({('rngin',)}) else env.get('@rng', E0)
        return ret


def unordered(tags):
    return frozenset(t for t in tags if t[0] not in ('fsorder', 'po'))


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, tuple) or isinstance(out.get(k), tuple):
            if not (k in out and len(out[k]) == len(v)):
                out.pop(k, None)
                continue
            out[k] = tuple(x | y for x, y in zip(out[k], v))
        else:
            out[k] = out[k] | v if k in out else v
    for k in [k for k in out if k.startswith('@tup:') and k not in b]:
        del out[k]
    return out


def as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    return t


def root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def exc_name(e):
    if e is None:
        return 'reraise'
    if isinstance(e, ast.Call):
        e = e.func
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return 'Exception'


def always_raises(stmts):
    for st in stmts:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.If) and st.orelse and always_raises(st.body) and always_raises(st.orelse):
            return True
        if isinstance(st, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def static_test(t, assume, reassigned=(), F=None, depth=0):
    def sub(x):
        return static_test(x, assume, reassigned, F, depth)
    if depth > 4:
        return None
    if isinstance(t, ast.Constant) and isinstance(t.value, bool):
        return t.value
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = sub(t.operand)
        return None if v is None else (not v)
    if isinstance(t, ast.BoolOp):
        vs = [sub(x) for x in t.values]
        if isinstance(t.op, ast.And):
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if any(v is True for v in vs):
            return True
        return False if all(v is False for v in vs) else None
    if isinstance(t, ast.IfExp):
        v = sub(t.test)
        return None if v is None else sub(t.body if v else t.orelse)

    def given(n):
        if isinstance(n, ast.Name) and n.id not in assume and F is not None and F.once(n.id) is not None:
            n = F.once(n.id)
        return isinstance(n, ast.Name) and assume.get(n.id) == 'GIVEN' and n.id not in reassigned

    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(a, ast.Constant) and given(b) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            a, b = b, a
        if given(a):
            if isinstance(b, ast.Constant):
                if b.value is None:
                    if isinstance(op, (ast.Is, ast.Eq)):
                        return False
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        return True
                if b.value is False or b.value is True:
                    if isinstance(op, ast.Is):
                        return False
                    if isinstance(op, ast.IsNot):
                        return True
                return None     # 0 == False
            if isinstance(b, (ast.Tuple, ast.List, ast.Set)) and isinstance(op, (ast.In, ast.NotIn)) and \
                    all(isinstance(x, ast.Constant) and (x.value is None or isinstance(x.value, str)) for x in b.elts):
                return isinstance(op, ast.NotIn)
        return None
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2 and given(t.args[0]):
        ty = t.args[1]
        names = [n.id for n in ast.walk(ty) if isinstance(n, ast.Name)] + [n.attr for n in ast.walk(ty) if isinstance(n, ast.Attribute)]
        if 'int' in names or 'integer' in names:
            return True
        if set(names) <= {'bool', 'bool_', 'str', 'NoneType'}:
            return False
        return None
    if F is not None and isinstance(t, ast.Name) and t.id not in assume:
        v = F.once(t.id)
        return None if v is None else static_test(v, assume, reassigned, F, depth + 1)
    if F is not None and isinstance(t, ast.Call):
        # a helper that only answers the question
        b = F.P.resolve_expr(F.f.module, t.func, F.f, F.shadow)
        if b is not None and b[0] == 'func' and b[1].cls is None:
            g = b[1]
            body = g.node.body if isinstance(g.node.body, list) else [ast.Return(g.node.body)]
            body = [x for x in body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            giv = F.given_args(g, t, None)
            if giv:
                a = {p: 'GIVEN' for p in giv}
                G = FDeps(F.D, g, a)
                return static_return(body, a, G, depth + 1)
    return None


def static_return(body, assume, G, depth):
    """outcome of a small yes/no helper: a chain of ifs ending in returns"""
    for st in body:
        if isinstance(st, ast.Return):
            return None if st.value is None else static_test(st.value, assume, G.reassigned(), G, depth)
        if isinstance(st, ast.If):
            v = static_test(st.test, assume, G.reassigned(), G, depth)
            if v is None:
                return None
            br = st.body if v else st.orelse
            if any(isinstance(x, ast.Return) for x in br):
                return static_return(br, assume, G, depth)
            if br and not all(isinstance(x, (ast.Assign, ast.Pass, ast.Expr)) for x in br):
                return None
            continue
        if isinstance(st, (ast.Assign, ast.Pass, ast.Expr)):
            continue
        return None
    return None
