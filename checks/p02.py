"""P02: changing cosmology or box size reaches every later computation."""
import ast, json, os
from analysis.loader import Project, own_walk
from analysis.deps import Deps, FDeps
from analysis.report import Result
from analysis.effects import Effects
from . import p03
from .common import definitions, TECHNIQUE as DEFT, ASSUMPTIONS as DEFA

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MINIMUM = 700
TECHNIQUE = ('staleness analysis of the settable parameters (modules const and conv): the definition graph of every derived module value gives, for each setter, '
             'the values it must rebuild; name binding is resolved to find every place that copies a settable value at import time (from-imports by value, default '
             'arguments, class attributes, module-level tables, decorators), and interprocedural information flow gives, for each public function, the setters its '
             'result must keep depending on (specs/config.json). Plus ' + DEFT)
ASSUMPTIONS = DEFA + ['objects built before a parameter is changed keep the values they were built with']
CFG = ('const', 'conv')


def module_defs(P, mod):
    """var -> names (mod, var) its last module-level definition reads when it is executed"""
    m = P.modules[mod]
    out = {}
    for st in m.tree.body:
        if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and getattr(st, 'value', None) is not None:
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        out[x.id] = (reads(P, m, st.value), st.lineno)
    return out


def reads(P, m, e):
    out = set()
    todo = [e]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Lambda):
            todo += list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]
            continue
        if isinstance(n, (ast.Name, ast.Attribute)):
            b = P.resolve_expr(m, n)
            if b and b[0] == 'var':
                out.add((b[1].name, b[2]))
                continue
        todo += list(ast.iter_child_nodes(n))
    return out


class Settings:
    def __init__(self, P, D):
        self.defs = {}
        for mod in CFG:
            for v, (r, line) in module_defs(P, mod).items():
                self.defs[(mod, v)] = r
        # variables a setter assigns itself
        self.setters = {}
        for f in P.all_functions():
            if f.module.name in CFG and f.cls is None and f.parent is None and f.user_params and f.public:
                gw = D.sums[f].gw
                direct = {k for k, v in gw.items() if any(t[0] == 'p' for t in v) or self.own(f, k)}
                if direct:
                    self.setters[f] = direct
        self.influence = {}       # variable -> names of the setters that must change it
        for f, direct in self.setters.items():
            cl = set(direct)
            ch = True
            while ch:
                ch = False
                for v, r in self.defs.items():
                    if v not in cl and r & cl:
                        cl.add(v)
                        ch = True
            for v in cl:
                self.influence.setdefault(v, set()).add(f.name)

    def own(self, f, k):
        return f.module.name == k[0] and k[1] in getattr(f, 'globals_', set()) and any(
            isinstance(n, ast.Name) and n.id == k[1] and isinstance(n.ctx, ast.Store) for n in own_walk(f.node))

    def settable(self, mod, var):
        return bool(self.influence.get((mod, var)))


def config_of(S, s):
    out = set()
    tags = set(s.ret | s.io | s.raises)
    for v in s.fields.values():
        tags |= v
    for t in tags:
        if t[0] == 'cfg':
            out |= S.influence.get((t[1], t[2]), set())
    return out


def run(tier):
    P = Project()
    D = Deps(P)
    R = Result()
    R.rules = {'derived-stale': 'a setter leaves a value that is derived from the parameter it changes at its old value',
               'alternative-stale': 'a function reads another stored form of a settable quantity, which the setter does not update',
               'captured': 'a settable value is copied when the module is imported',
               'kept': 'a function that depends on a setting stores results that later calls reuse',
               'config-lost': 'the result of a function no longer depends on a setting it is recorded to depend on'}
    S = Settings(P, D)
    for f, direct in S.setters.items():
        gw = set(D.sums[f].gw)
        for v, who in sorted(S.influence.items()):
            if f.name in who:
                if v in gw:
                    R.ok('%s rebuilds %s.%s' % (f.where, v[0], v[1]))
                else:
                    R.bad('derived-stale', f.where, '%s.%s' % v, '%s changes %s but leaves %s.%s, which is defined from it, at its old value' % (
                        f.name, ', '.join(sorted(x[1] for x in direct)), v[0], v[1]), f.node.lineno)
    captured(P, D, S, R)
    alternatives(P, S, R)
    E = Effects(P)
    for f in P.all_functions():
        if f.module.name in CFG:
            continue
        dep = config_of(S, D.sums[f]) | {n for v in D.sums[f].gw.values() for t in v if t[0] == 'cfg' for n in S.influence.get(t[1:3], ())}
        if not dep:
            continue
        t = Result()
        p03.kept(P, D, E, f, t)
        for x in t.findings:
            if x.construct != 'settings':
                R.bad('kept', x.where, x.construct, '%s; it depends on %s, whose later values it ignores' % (x.message, ', '.join(sorted(dep))), x.line)
    table = json.load(open(os.path.join(HERE, 'specs', 'config.json')))
    for f in P.all_functions():
        if not f.public or f.qual not in table:
            continue
        have = config_of(S, D.sums[f])
        lost = sorted(set(table[f.qual]) - have)
        if lost:
            R.bad('config-lost', f.where, ','.join(lost), 'the result of %s no longer depends on what %s sets' % (f.name, ', '.join(lost)), f.node.lineno)
        else:
            R.ok('%s depends on %s' % (f.where, ', '.join(sorted(table[f.qual]))))
    R.counts = {'setters': len(S.setters), 'settable_values': len(S.influence), 'functions_with_config': len(table)}
    definitions('P02', R, P, modules=('const', 'conv'))
    return R


def alternatives(P, S, R):
    """a derived value with two module-level definitions shows two stored forms of one quantity: both must follow the setter"""
    for mod in CFG:
        m = P.modules[mod]
        defs = {}
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(t, ast.Name):
                        defs.setdefault(t.id, []).append(reads(P, m, st.value))

        def roots(names):
            out, todo = set(), [x for x in names]
            while todo:
                v = todo.pop()
                if v in out:
                    continue
                nxt = S.defs.get(v, set())
                if v[0] == mod and nxt:
                    todo += [x for x in nxt if x != v]
                else:
                    out.add(v)
            return out
        for var, ds in sorted(defs.items()):
            if len(ds) < 2:
                continue
            now = S.influence.get((mod, var), set())
            for old in ds[:-1]:
                both = roots(old) & roots(ds[-1])
                for r in sorted(roots(old) - both):
                    miss = now - S.influence.get(r, set())
                    # only a quantity that the later definition replaces, not one that it ignores
                    if not miss or not roots(ds[-1]) - both:
                        continue
                    for f in P.all_functions():
                        if f.module.name == mod or f.parent is not None:
                            continue
                        hit = [n for n in own_walk(f.node) if isinstance(n, (ast.Name, ast.Attribute)) and
                               (P.resolve_expr(f.module, n, f) or ('',))[0] == 'var' and P.resolve_expr(f.module, n, f)[1].name == r[0] and P.resolve_expr(f.module, n, f)[2] == r[1]]
                        if hit:
                            R.bad('alternative-stale', f.module.name + '.py', '%s.%s' % r, '%s reads %s.%s, from which %s.%s was first defined; %s changes the form that now defines it and leaves this one' % (
                                f.name, r[0], r[1], mod, var, ', '.join(sorted(miss))), hit[0].lineno)
                    R.ok('%s: second form %s.%s of %s' % (mod, r[0], r[1], var))


def captured(P, D, S, R):
    def tags_at_import(m, e):
        """settable values read when this module-level expression is evaluated"""
        bad = {'%s.%s' % v for v in reads(P, m, e) if S.settable(*v)}
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                b = P.resolve_expr(m, n.func)
                if b and b[0] == 'func':
                    bad |= {'%s.%s' % t[1:] for t in D.sums[b[1]].ret if t[0] == 'cfg' and S.settable(*t[1:])}
        return bad

    for m in P.modules.values():
        # module and class level statements
        if m.name not in CFG:
            todo = [(m.name, st) for st in m.tree.body]
            while todo:
                where, st = todo.pop()
                if isinstance(st, ast.ClassDef):
                    todo += [('%s:%s' % (m.name, st.name), x) for x in st.body]
                elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For)):
                    for k in ('body', 'orelse', 'finalbody'):
                        todo += [(where, x) for x in getattr(st, k, [])]
                    for h in getattr(st, 'handlers', []):
                        todo += [(where, x) for x in h.body]
                elif isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and st.value is not None:
                    bad = tags_at_import(m, st.value)
                    names = [x.id for t in (st.targets if isinstance(st, ast.Assign) else [st.target]) for x in ast.walk(t) if isinstance(x, ast.Name)]
                    if bad:
                        R.bad('captured', '%s.py' % m.name, ','.join(names), '%s copies %s when the module is imported' % (', '.join(names), ', '.join(sorted(bad))), st.lineno)
                    else:
                        R.ok('%s.py: %s holds no settable value' % (m.name, ','.join(names)))
    for f in P.all_functions():
        if f.parent is None:
            for p, d in f.defaults.items():
                bad = tags_at_import(f.module, d)
                if bad:
                    R.bad('captured', f.where, p, 'the default of %r copies %s when the module is imported' % (p, ', '.join(sorted(bad))), f.node.lineno)
                else:
                    R.ok('%s: default of %s' % (f.where, p))
            for d in getattr(f.node, 'decorator_list', []):
                bad = tags_at_import(f.module, d)
                if bad:
                    R.bad('captured', f.where, 'decorator', 'a decorator argument copies %s when the module is imported' % ', '.join(sorted(bad)), f.node.lineno)
        # names bound by value in another module
        if f.module.name in CFG:
            continue
        F = FDeps(D, f)
        for n in own_walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in F.shadow:
                b = P.lookup(f.module, n.id, f)
                if b and b[0] == 'var' and b[1].name in CFG and b[1].name != f.module.name and S.settable(b[1].name, b[2]) and not local_import(P, f, n.id):
                    R.bad('captured', f.where, n.id, '%s is imported by value from %s: later settings do not reach %s' % (n.id, b[1].name, f.name), n.lineno)
    # the public namespace itself
    init = P.modules.get('__init__')
    if init is not None:
        names = sorted(v for mod, v in S.influence if (lambda b: b and b[0] == 'var' and b[1].name == mod)(P.lookup(init, v, None)))
        if names:
            R.bad('captured', '__init__.py', 'public names', 'the package namespace copies settable values (%s) when it is imported' % ', '.join(names))


def local_import(P, f, name):
    g = f
    while g is not None:
        if name in P.local_imports(g):
            return True
        g = g.parent
    return False
