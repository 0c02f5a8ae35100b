"""P06: message and progress settings never change a result."""
import ast
from analysis.loader import Project, own_walk
from analysis.deps import Deps
from analysis.quiet import quiet
from analysis.report import Result
from analysis.compare import Spec, evaluate, guarded, pairs, atoms_of, judge
from . import tables

MINIMUM = 45
TECHNIQUE = ('interprocedural information-flow analysis of the message-free form of the package (printing, warnings, waiting and progress bars '
             'removed, branches that then read the same merged): no verbosity parameter, verbosity field or global verbosity switch may reach a '
             'returned value, a raised error, a written file, a modified argument, object or setting, or the number of random draws; a flow that '
             'remains is dismissed only if the value graphs for both settings are equal')
ASSUMPTIONS = ['evaluating the arguments of a message does not fail or change anything']
NAMES = {'verbose', 'progress', 'message', 'show_progress', 'progress_bar', 'disable_progress', 'quiet', 'silent', '_verbose', 'disable_tqdm'}


def is_verb(p):
    q = p.lower().lstrip('_')
    return q in NAMES or 'verb' in q or q.startswith('progress') or q.endswith('progress')


def sinks(s, t):
    out = []
    for k, name in (('ret', 'the returned value'), ('raises', 'whether an error is raised'), ('io', 'the written output'), ('other', 'library state or drawings')):
        if t in getattr(s, k):
            out.append(name)
    out += ['the field %s' % k for k, v in sorted(s.fields.items()) if t in v and not is_verb(k)]
    out += ['the setting %s.%s' % k for k, v in sorted(s.gw.items()) if t in v and not is_verb(k[1])]
    out += ['the argument %s' % k for k, v in sorted(s.mut.items()) if t in v and not is_verb(k)]
    if any(t in d[2] for d in s.draws):
        out.append('which random numbers are drawn')
    return out


def param_sources(f, s):
    return [p for p in f.params if is_verb(p) and sinks(s, ('p', p))]


def run(tier):
    P = Project(transform=quiet)
    R = Result()
    R.rules = {'verbosity-flow': 'a message setting influences something other than messages'}
    # flows through branches that compute the same value in two ways are dismissed, innermost functions first
    mask, tried, open_ = set(), set(), set()
    while True:
        D = Deps(P, mask=mask)
        new = False
        flagged = [(f, p) for f in P.all_functions() for p in param_sources(f, D.sums[f])]
        for f, p in flagged:
            if (f, p) in tried or not two_sided(f, p):
                continue
            tried.add((f, p))
            v = same_values(P, f, p)
            if v is not False:
                mask.add((f, p))
                if v is None:
                    open_.add((f, p))
                new = True
        if not new:
            break
    nsrc = 0
    for f in P.all_functions():
        s = D.sums[f]
        src = [('p', p) for p in f.params if is_verb(p)]
        if f.cls is not None:
            tags = set()
            for k in alltags(s):
                tags |= {t for t in k if t[0] == 's' and is_verb(t[1])}
            src += sorted(tags)
        tags = set()
        for k in alltags(s):
            tags |= {t for t in k if t[0] in ('g', 'cfg') and is_verb(t[2])}
        src += sorted(tags)
        for t in src:
            nsrc += 1
            hit = sinks(s, t)
            name = t[1] if t[0] == 'p' else 'self.' + t[1] if t[0] == 's' else '.'.join(t[1:])
            if hit and not f.public:
                continue            # judged at the public functions that reach it
            if hit:
                R.bad('verbosity-flow', f.where, name, '%s of %s influences %s' % (name, f.name, ', '.join(hit)), f.node.lineno)
            elif (f, name) in open_:
                R.skip('%s: %s' % (f.where, name), 'the two branches compute the same quantities in ways that are not comparable')
            else:
                R.ok('%s: %s reaches messages only' % (f.where, name))
        if not src and s.msg:
            R.ok('%s: messages only' % f.where)
    R.counts = {'functions': len(list(P.all_functions())), 'verbosity_sources': nsrc, 'branches_compared': len(tried)}
    return R


def alltags(s):
    return [s.ret, s.raises, s.io, s.other] + list(s.fields.values()) + list(s.gw.values()) + list(s.mut.values()) + [d[2] for d in s.draws]


def two_sided(f, p):
    """every branch on p does something on both sides (a one-sided branch that survives is no alternative way to the same result)"""
    found = False
    for n in own_walk(f.node):
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n.test)):
            found = True
            if not n.orelse:
                return False
        if isinstance(n, ast.IfExp) and any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n.test)):
            found = True
    return found


GUESS = {'data': 'arr3', 'labels': 'arr3', 'cube': 'arr3', 'input_array': 'arr3', 'mns': 'arr1', 'elems': 'arr1', 'truths': 'arr3', 'arr': 'arr3', 'xth': 'float', 'z': 'float',
         'operator': 'func', 'ncells': 'int', 'redshifts': 'arr1', 'lightcone': 'arr3', 'input_field': 'arr3'}


def same_values(P, f, p):
    """True: both settings give the same value; None: not comparable; False: they differ (or cannot be evaluated)"""
    types = {q: GUESS[q] for q in f.user_params if q in GUESS and q != p}
    for rows in tables.T.values():
        for sp in rows:
            if sp.qual == f.qual:
                types.update({k: v for k, v in sp.types.items() if k != p})
    sp = Spec(f.qual, types)
    a, _ = guarded(30, lambda: evaluate(P, f, sp, {p: True}))
    b, _ = guarded(30, lambda: evaluate(P, f, sp, {p: False}))
    if a is None or b is None:
        return False
    a, b = a[0], b[0]
    if a.fp == b.fp:
        return True
    ra = atoms_of(b)
    for path, x, y in pairs(a, b) or ():
        if judge(path, x, y, b, ra) is None:
            return False
    return None
