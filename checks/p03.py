"""P03: results depend only on arguments, input files and declared settings."""
import ast
from analysis.loader import Project, own_walk
from analysis.deps import Deps, FDeps
from analysis.effects import Effects
from analysis.report import Result

MINIMUM = 350
TECHNIQUE = ('interprocedural effect and information-flow analysis: writes to module-level, class-level and function-attribute state, to mutable default '
             'arguments and to process-wide settings are found for every function (only the declared setters may make them); no result may depend on the '
             'clock, the process environment, object identity, directory order or an undeclared random draw; memo decorators and cached fields are '
             'accepted only when the key determines everything the cached value depends on')
ASSUMPTIONS = ['library functions keep no state of their own except those listed (numpy error state, generators, working directory, environment variables)']
# the declared settings and who may write them
SETTER_MODULES = ('const', 'conv')
SETTERS = {'helper_functions.set_verbose'}
# functions that draw random numbers by their nature
RANDOM = {'bubble_stats.mfp', 'bubble_stats.averaged_mfp', 'bubble_stats.mfp_from_point', 'corr_function.landy_szalay_estimator', 'foreground_model.galactic_synch_fg',
          'foreground_model.extragalactic_pointsource_fg', 'gaussian_random_field.make_gaussian_random_field', 'gaussian_random_field.make_gaussian_random_field_like_field',
          'gaussian_random_field.fourier_phase_shuffled', 'mfp_np.mfp3d', 'mfp_np.mfp2d', 'radio_telescope_calibration.from_antenna_config_with_gains',
          'radio_telescope_calibration.get_uv_map_with_gains', 'radio_telescope_calibration.apply_uv_with_gains_response_on_image', 'radio_telescope_noise.noise_map',
          'radio_telescope_noise.noise_cube_coeval', 'radio_telescope_noise.noise_cube_lightcone', 'radio_telescope_noise.noise_lightcone', 'test_case.spherical_bubble_model'}
RANDOM_MODULES = {'foreground_model', 'gaussian_random_field', 'mfp_np', 'radio_telescope_noise', 'radio_telescope_calibration', 'test_case'}
TAGS = {'clock': 'the clock', 'env': 'the process environment', 'id': 'object identity or hashing', 'fsorder': 'the order in which the directory is listed',
        'rngin': 'a random draw', 'rngpyin': 'a random draw', 'osrng': 'a random draw'}
OK = {
    ('lyman_alpha_coupling.Lya_coupling_coeff_MPI', 'clock'): 'names a scratch file',
    ('lyman_alpha_coupling.Lya_coupling_coeff_useprofile', 'fsorder'): 'sums over all files',
    ('topology.EulerCharacteristic', 'env'): 'number of workers', ('topology.betti1', 'env'): 'number of workers', ('ViteBetti.CubeMap_joblib', 'env'): 'number of workers',
}
# files are looked up by the redshift in their name, not by position
BY_VALUE = {'read_files', 'usefuls'}
PROCESS = {'os.chdir': 'the working directory', 'os.putenv': 'the environment', 'numpy.seterr': "numpy's error handling", 'numpy.seterrcall': "numpy's error handling", 'os.umask': 'the file mode mask',
           'locale.setlocale': 'the locale', 'torch.set_default_dtype': "torch's default type", 'torch.set_default_device': "torch's default device", 'decimal.setcontext': 'the decimal context',
           'os.environ.update': 'the environment', 'os.environ.setdefault': 'the environment', 'os.environ.pop': 'the environment', 'sys.path.append': None, 'sys.path.insert': None}
MEMO = {'lru_cache', 'cache', 'memoize', 'cached', 'memoized', 'cached_property', 'cachedmethod'}


def callers(D):
    if not hasattr(D, 'callers_'):
        D.callers_ = {}
        for g, s in D.sums.items():
            for h, *_ in s.calls:
                D.callers_.setdefault(h, set()).add(g)
    return D.callers_


def only_from(D, f, good, seen=()):
    """a private function that only the functions accepted by good, or such functions, call"""
    if not f.name.startswith('_') or f.name.startswith('__') or f in seen:
        return False
    c = callers(D).get(f, set()) - {f}
    return bool(c) and all(good(g) or only_from(D, g, good, seen + (f,)) for g in c)


def is_setter(P, D, f):
    good = lambda g: g.module.name in SETTER_MODULES or g.qual in SETTERS
    return good(f) or only_from(D, f, good)


def kept(P, D, E, f, R):
    """state that outlives a call of f"""
    s = D.sums[f]
    setter = is_setter(P, D, f)
    own = own_writes(P, D, f)
    if setter:
        R.ok('%s: declared setter' % f.where)
    else:
        for what, line in own:
            R.bad('state-write', f.where, what, '%s writes %s, which outlives the call' % (f.name, what), line)
        called = {k for k in s.gw if k not in {tuple(w.split('.', 1)) for w, _ in own}}
        viaset = sorted({'%s.%s' % k for k in called if k[0] in SETTER_MODULES or k == ('helper_functions', 'verbose')})
        if viaset and any(is_setter(P, D, g) for g, *_ in s.calls):
            R.bad('state-write', f.where, 'settings', '%s changes the declared settings (%s) as a side effect' % (f.name, ', '.join(viaset[:4])), f.node.lineno)
        for r, w in E.sums[f].mut.items():
            if r[0] == 'g' and not any(what == '%s.%s' % r[1:] for what, _ in own) and holds(E, f, r):
                R.bad('state-write', f.where, '%s.%s' % r[1:], '%s modifies the module-level object %s.%s: %s' % (f.name, r[1], r[2], w[0]), w[1])
        if not own and not viaset:
            R.ok('%s: writes no lasting state' % f.where)
    memo(P, D, f, s, R)
    fields(P, D, f, s, R)
    defaults(P, E, f, R)


def run(tier):
    P = Project()
    D = Deps(P)
    E = Effects(P)
    R = Result()
    R.rules = {'state-write': 'a function that is not a setter writes module-level, class-level or function-attribute state',
               'process-state': 'a function changes a process-wide setting that later calls depend on',
               'ambient-input': 'a result depends on the clock, environment, object identity, directory order or an undeclared random draw',
               'stale-memo': 'a stored result is reused although something it depends on may have changed',
               'default-mutated': 'a mutable default argument is modified or handed out'}
    # functions reachable only through a reported one are reported once, at the function that holds the write
    for f in P.all_functions():
        s = D.sums[f]
        kept(P, D, E, f, R)
        process(P, f, R, D)
        if f.public:
            hit = False
            for tag in sorted({t[0] for t in s.ret | s.io | fieldtags(s)} & set(TAGS)):
                if (f.qual, tag) in OK or (tag == 'fsorder' and f.module.name in BY_VALUE):
                    continue
                if tag in ('rngin', 'rngpyin', 'osrng') and (f.qual in RANDOM or f.module.name in RANDOM_MODULES and has_draw(s)):
                    continue
                if tag == 'fsorder' and not f.public:
                    continue
                hit = True
                R.bad('ambient-input', f.where, tag, 'the result of %s depends on %s' % (f.name, TAGS[tag]), f.node.lineno)
            if not hit:
                R.ok('%s: result depends on arguments, files and settings only' % f.where)
        for n, line in set_order(f):
            R.bad('ambient-input', f.where, 'set order', '%s takes an order from a set of strings (%s)' % (f.name, n), line)
    R.counts = {'functions': len(list(P.all_functions())), 'module_variables': sum(len(m.vars) for m in P.modules.values())}
    return R


def has_draw(s):
    return any(t[0] == 'draw' for t in s.ret | fieldtags(s))


def fieldtags(s):
    r = frozenset()
    for v in s.fields.values():
        r |= v
    return r


def holds(E, f, r):
    """the write is made by f itself, not by a function it calls"""
    w = E.sums[f].mut[r]
    return not (len(w) > 2 and w[2])


def own_writes(P, D, f):
    """module-level, class-level and function-attribute state written by the statements of f itself"""
    out = []
    F = FDeps(D, f)
    gl = getattr(f, 'globals_', set())
    for n in own_walk(f.node):
        tg = []
        if isinstance(n, ast.Assign):
            tg = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg = [n.target]
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tg = [n.target]
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            tg = [i.optional_vars for i in n.items if i.optional_vars is not None]
        elif isinstance(n, ast.Delete):
            tg = n.targets
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'remove', 'sort',
                                                                                             'reverse', 'fill', 'put', 'itemset', 'resize', 'discard', 'appendleft', '__setitem__'):
            tg = [ast.Subscript(n.func.value, ast.Constant(0), ast.Store())]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
            tg = [ast.Attribute(n.args[0], n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '?', ast.Store())]
        tg = list(tg)
        flat = []
        while tg:
            t = tg.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                tg += t.elts
            elif isinstance(t, ast.Starred):
                tg.append(t.value)
            else:
                flat.append(t)
        for t in flat:
            if isinstance(t, ast.Name):
                if t.id in gl:
                    out.append(('%s.%s' % (f.module.name, t.id), n.lineno))
                continue
            b = t
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                if isinstance(b, ast.Attribute):
                    r = P.resolve_expr(f.module, b, f, F.shadow)
                    if r and r[0] == 'var':
                        out.append(('%s.%s' % (r[1].name, r[2]), n.lineno))
                        break
                    base = P.resolve_expr(f.module, b.value, f, F.shadow)
                    if base and base[0] == 'mod':
                        out.append(('%s.%s' % (base[1].name, b.attr), n.lineno))
                        break
                    if base and base[0] in ('func', 'class'):
                        out.append(('%s.%s' % (base[1].qual, b.attr), n.lineno))
                        break
                    if isinstance(b.value, ast.Attribute) and b.value.attr == '__class__' or isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Name) and b.value.func.id == 'type':
                        out.append(('class attribute %s' % b.attr, n.lineno))
                        break
                    if isinstance(b.value, ast.Name) and b.value.id == f.self_name and f.cls is not None and b is not t and shared_attr(f.cls, b.attr):
                        out.append(('class attribute %s' % b.attr, n.lineno))
                        break
                    if isinstance(b.value, ast.Name) and f.cls is not None and b.value.id == 'cls' and b.value.id in f.params:
                        out.append(('class attribute %s' % b.attr, n.lineno))
                        break
                b = b.value
            else:
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ('globals', 'vars') and not b.args:
                    out.append(('module globals', n.lineno))
                elif isinstance(b, ast.Name) and (b.id in gl or b.id not in F.locals) and not isinstance(t, ast.Name):
                    r = P.lookup(f.module, b.id, f)
                    if r and r[0] == 'var':
                        out.append(('%s.%s' % (r[1].name, r[2]), n.lineno))
                    elif r and r[0] in ('func', 'class') and isinstance(t, ast.Attribute):
                        out.append(('%s.%s' % (r[1].qual, t.attr), n.lineno))
    seen, res = set(), []
    for w, l in out:
        if w not in seen:
            seen.add(w)
            res.append((w, l))
    return res


def shared_attr(cls, attr):
    """attr is a mutable object of the class itself that no constructor replaces"""
    mutable = False
    for st in cls.node.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in st.targets):
            mutable = not isinstance(st.value, ast.Constant)
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == attr and st.value is not None:
            mutable = not isinstance(st.value, ast.Constant)
    if not mutable:
        return False
    init = cls.methods.get('__init__')
    if init is not None:
        for n in own_walk(init.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == init.self_name:
                return False
    return True


def process(P, f, R, D):
    F = FDeps(D, f)
    for n in own_walk(f.node):
        if isinstance(n, ast.Call):
            b = P.resolve_expr(f.module, n.func, f, F.shadow)
            if b and b[0] in ('ext', 'ext?') and PROCESS.get(b[1]):
                R.bad('process-state', f.where, b[1], '%s changes %s for every later call' % (f.name, PROCESS[b[1]]), n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript):
                    b = P.resolve_expr(f.module, t.value, f, F.shadow)
                    if b and b[0] in ('ext', 'ext?') and b[1] == 'os.environ':
                        R.bad('process-state', f.where, 'os.environ', '%s changes the environment for every later call' % f.name, n.lineno)
                elif isinstance(t, ast.Attribute):
                    b = P.resolve_expr(f.module, t.value, f, F.shadow)
                    if b and b[0] in ('ext', 'ext?') and b[1].split('.')[0] in ('numpy', 'scipy', 'astropy', 'math', 'os', 'sys') and b[1] not in ('sys.stdout',):
                        R.bad('process-state', f.where, b[1] + '.' + t.attr, '%s changes %s.%s for every later call' % (f.name, b[1], t.attr), n.lineno)


def memo(P, D, f, s, R):
    if isinstance(f.node, ast.Lambda):
        return
    for d in f.node.decorator_list:
        dd = d.func if isinstance(d, ast.Call) else d
        name = dd.attr if isinstance(dd, ast.Attribute) else dd.id if isinstance(dd, ast.Name) else ''
        if name not in MEMO:
            continue
        tags = {t[0] for t in s.ret | s.raises} - {'p', 'po'}
        bad = sorted(tags & {'cfg', 'file', 's', 'rngin', 'osrng', 'env', 'clock', 'fsorder', 'c'})
        written = {t for t in s.ret if t[0] == 'g'} & {('g',) + k for g in D.sums.values() for k in g.gw}
        if bad or written:
            names = {'cfg': 'settable parameters', 'file': 'files', 's': 'object state', 'c': 'enclosing variables'}
            R.bad('stale-memo', f.where, name, 'results of %s are kept although they depend on %s' % (f.name, ', '.join([names.get(b, b) for b in bad] or ['changing module state'])), f.node.lineno)
        elif any(isinstance(n, ast.Call) and (lambda b: b and b[0] in ('ext', 'ext?') and b[1].startswith('numpy.'))(P.resolve_expr(f.module, n.func, f, FDeps(D, f).shadow)) for n in own_walk(f.node)):
            R.bad('stale-memo', f.where, name, '%s hands the same stored array to every caller' % f.name, f.node.lineno)
        else:
            R.ok('%s: memo key determines the result' % f.where)


def self_attrs(e, me):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            out.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            if isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                out.add(n.args[1].value)
    return out


def fields(P, D, f, s, R):
    """a field filled once and then reused whatever the later arguments are"""
    if f.cls is None or f.name == '__init__' or only_from(D, f, lambda g: g.name == '__init__'):
        return
    me = f.self_name
    guards = {}
    for n in own_walk(f.node):
        if isinstance(n, ast.If):
            at = self_attrs(n.test, me)
            if at:
                ids = {id(x) for st in n.body + n.orelse for x in ast.walk(st)}
                # a guard that leaves early also controls what follows
                guards[n] = (at, ids)
        elif isinstance(n, ast.Try):
            at = set()
            for st in n.body:
                at |= self_attrs(st, me)
            guards[n] = (at, {id(x) for h in n.handlers for st in h.body for x in ast.walk(st)})
    for t, b, tags, keys, st in s.stores:
        if not (isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == me):
            continue
        for g, (at, ids) in guards.items():
            if b.attr in at and id(t) in ids:
                test = FDeps(D, f).ev(g.test, {p: frozenset({('p', p)}) for p in f.params if p != me}) if isinstance(g, ast.If) else frozenset()
                known = {x for x in (keys | test) if x[0] == 'p'}
                dep = {x for x in tags if x[0] in ('p', 'cfg')} - known
                if dep:
                    R.bad('stale-memo', f.where, 'self.' + b.attr, 'field %s is filled once from %s and reused by later calls' % (b.attr, ', '.join(sorted('.'.join(map(str, x[1:])) for x in dep))), st.lineno)
                else:
                    R.ok('%s: field %s does not depend on later arguments' % (f.where, b.attr))


def defaults(P, E, f, R):
    for p, d in f.defaults.items():
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and not (isinstance(d.func, ast.Name) and d.func.id in ('float', 'int', 'str', 'tuple', 'frozenset')):
            w = E.sums[f].mut.get(('p', p))
            ret = getattr(E.sums[f], 'ret', None)
            if w is not None:
                R.bad('default-mutated', f.where, p, 'the shared default of %r is modified: %s' % (p, w[0]), w[1])
            elif ret is not None and ('p', p) in ret.own:
                R.bad('default-mutated', f.where, p, 'the shared default of %r is handed to the caller' % p, f.node.lineno)
            else:
                R.ok('%s: default of %s is read only' % (f.where, p))


def set_order(f):
    """list(set(strings)) and loops over sets of strings: the order differs between processes"""
    out = []
    for n in own_walk(f.node):
        it = None
        if isinstance(n, (ast.For, ast.AsyncFor)):
            it = n.iter
        elif isinstance(n, ast.comprehension):
            it = n.iter
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'enumerate') and n.args:
            it = n.args[0]
        if isinstance(it, ast.Set) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in it.elts):
            out.append((ast.unparse(it)[:40], n.lineno if hasattr(n, 'lineno') else it.lineno))
    return out
