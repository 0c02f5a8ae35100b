"""P04: a given seed reproduces the same random result."""
import ast
from analysis.loader import Project, own_walk
from analysis.deps import Deps, FDeps
from analysis.report import Result
from .common import definitions, TECHNIQUE as DEFT, ASSUMPTIONS as DEFA

MINIMUM = 25
TECHNIQUE = ('flow-sensitive interprocedural information-flow analysis of generator state: every function with a seed option is analysed '
             'under the assumption that the option was given some value (zero included), through every helper it calls; each random draw '
             'reached must then depend on the seed and not on the state the generator had on entry, an unseeded generator, the clock or the '
             'environment; draws in worker processes and compiled functions, seeds that are narrowed before use and fixed re-seeding are reported. '
             'Functions without a seed option must draw from the numpy generator the caller can seed. Plus ' + DEFT)
ASSUMPTIONS = ['numpy and scipy generators are deterministic functions of their seed', 'numba-compiled functions use a generator of their own'] + DEFA
SEED_NAMES = ('seed', 'random_state', 'rng')
BADSRC = {'rngin': 'the state the generator happened to have', 'rngpyin': "the state of Python's own generator", 'osrng': 'a generator created without a seed',
          'clock': 'the clock', 'env': 'the process environment', 'id': 'object identity', 'fsorder': 'directory order'}
# deterministic library estimators that take an explicit state of their own
NARROW = (ast.FloorDiv, ast.Div, ast.Mod, ast.RShift)


def seed_params(f):
    return [p for p in f.user_params if any(s in p.lower() for s in ('seed', 'random_state')) or p.lower() == 'rng']


def run(tier):
    P = Project()
    R = Result()
    R.rules = {'draw-before-seed': 'with a seed given, a draw still depends on something other than the seed',
               'seed-ignored': 'the result of a function with a seed option does not depend on the seed',
               'seed-narrowed': 'different seeds are mapped to the same generator state',
               'unseedable': 'a draw does not come from the generator the caller can seed',
               'fixed-seed': 'the generator is re-seeded with a fixed value',
               'worker-draw': 'a draw happens in a worker process or compiled function that does not share the seeded generator'}
    seeded = {}
    for f in P.all_functions():
        ps = seed_params(f)
        if ps:
            seeded[f] = ps
    D = Deps(P)
    for f, ps in seeded.items():
        s = D.special(f, frozenset(ps))
        if not f.public:
            continue
        names = {('p', p) for p in ps}
        for line, text, tags, where in s.draws:
            bad = sorted({t[0] for t in tags} & set(BADSRC))
            if bad:
                R.bad('draw-before-seed', f.where, '%s in %s' % (text, where),
                      'with %s given, %s drawn in %s still depends on %s' % ('/'.join(ps), text, where, ' and '.join(BADSRC[b] for b in bad)), line)
            elif not (tags & names):
                R.bad('draw-before-seed', f.where, '%s in %s' % (text, where), '%s drawn in %s does not depend on the seed that was given' % (text, where), line)
            else:
                R.ok('%s: draw %s depends on %s only' % (f.where, text, '/'.join(ps)))
        bad = sorted({t[0] for t in s.ret} & set(BADSRC) - {'env'})
        if bad:
            R.bad('draw-before-seed', f.where, 'result', 'with %s given the result still depends on %s' % ('/'.join(ps), ' and '.join(BADSRC[b] for b in bad)), f.node.lineno)
        if not (s.ret & names):
            R.bad('seed-ignored', f.where, '/'.join(ps), 'the result does not depend on the seed', f.node.lineno)
        else:
            R.ok('%s: result depends on %s' % (f.where, '/'.join(ps)))
    # functions without the option draw from the generator the caller can seed
    for f in P.all_functions():
        if f in seeded:
            continue
        for line, text, tags, where in D.sums[f].draws:
            if where != f.where:
                continue
            bad = sorted({t[0] for t in tags} & (set(BADSRC) - {'rngin', 'fsorder'}))
            src = {t[0] for t in tags}
            if bad:
                R.bad('unseedable', f.where, text, '%s depends on %s' % (text, ' and '.join(BADSRC[b] for b in bad)), line)
            elif 'rngin' in src or 'p' in src or 'c' in src or 's' in src:
                R.ok('%s: %s draws from the generator of the caller' % (f.where, text))
            else:
                R.bad('fixed-seed', f.where, text, '%s draws from a generator with a fixed seed' % text, line)
    # seeding statements
    for m in P.modules.values():
        for f in list(P.all_functions()):
            if f.module is not m:
                continue
            shadow = FDeps(D, f).shadow
            for n in own_walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                b = P.resolve_expr(m, n.func, f, shadow)
                name = b[1] if b and b[0] in ('ext', 'ext?') else ''
                if name in ('numpy.random.seed', 'random.seed') or name.split('.')[-1] in ('RandomState', 'default_rng', 'SeedSequence') and name.startswith('numpy.'):
                    args = list(n.args) + [k.value for k in n.keywords]
                    if name.endswith('.seed') and not any(isinstance(x, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)) for a in args for x in ast.walk(a)):
                        R.bad('fixed-seed', f.where, name, '%s re-seeds the generator with %s' % (f.name, 'a fixed value' if args else 'system entropy'), n.lineno)
                        continue
                    for a in args:
                        why = narrowed(a, f)
                        if why:
                            R.bad('seed-narrowed', f.where, name, 'the seed is %s before it reaches %s' % (why, name), n.lineno)
                        else:
                            R.ok('%s: %s receives the seed itself' % (f.where, name))
                elif name.split('.')[-1] in ('delayed', 'Process', 'Thread') or (isinstance(n.func, ast.Attribute) and n.func.attr in ('map', 'imap', 'starmap', 'imap_unordered', 'apply_async', 'submit', 'map_async')):
                    for a in list(n.args)[:1] + [k.value for k in n.keywords if k.arg in ('target', 'func', 'function')]:
                        bb = P.resolve_expr(m, a, f, shadow) if isinstance(a, (ast.Name, ast.Attribute)) else None
                        if bb and bb[0] == 'func':
                            if D.sums[bb[1]].draws:
                                R.bad('worker-draw', f.where, 'workers', '%s, which draws random numbers, is run by workers with generators of their own' % bb[1].name, n.lineno)
                            else:
                                R.ok('%s: worker %s draws nothing' % (f.where, bb[1].qual))
            if compiled(P, f) :
                if D.sums[f].draws:
                    R.bad('worker-draw', f.where, 'compiled', '%s is compiled and draws from a generator that numpy.random.seed does not reach' % f.name, f.node.lineno)
                else:
                    R.ok('%s: compiled function draws nothing' % f.where)
    R.counts = {'functions_with_seed': len(seeded), 'draw_sites': sum(1 for f in P.all_functions() for d in D.sums[f].draws if d[3] == f.where)}
    definitions('P04', R, P)
    return R


def compiled(P, f):
    if isinstance(f.node, ast.Lambda):
        return False
    for d in f.node.decorator_list:
        b = P.resolve_expr(f.module, d.func if isinstance(d, ast.Call) else d)
        if b and b[0] in ('ext', 'ext?') and b[1].startswith('numba.'):
            return True
    return False


def narrowed(e, f):
    """why different seeds may become equal in this expression, else None"""
    F = None
    for n in ast.walk(e):
        if isinstance(n, ast.BoolOp):
            return 'replaced when it is zero'
        if isinstance(n, ast.BinOp) and isinstance(n.op, NARROW):
            if isinstance(n.op, ast.Mod) and isinstance(n.right, (ast.BinOp, ast.Constant)):
                v = const(n.right)
                if v is not None and v >= 2 ** 32 - 1:
                    continue
            return 'reduced by %s' % type(n.op).__name__
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitAnd):
            v = const(n.right)
            if v is None or v < 2 ** 31 - 1:
                return 'masked'
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            if any(isinstance(x, ast.Constant) and not x.value for x in (n.left, n.right)):
                return 'multiplied by zero'
        if isinstance(n, (ast.Compare,)) and not isinstance(e, ast.IfExp):
            return 'turned into a truth value'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('abs', 'bool', 'min', 'max', 'round', 'len'):
            return 'reduced by %s()' % n.func.id
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('abs', 'absolute', 'sign', 'minimum', 'maximum', 'clip', 'mod', 'remainder', 'bool_'):
            return 'reduced by %s()' % n.func.attr
    return None


def const(e):
    try:
        v = eval(compile(ast.Expression(e), '', 'eval'), {'__builtins__': {}})      # constant arithmetic only: no names are available
        return v if isinstance(v, int) else None
    except Exception:
        return None
