"""Mutation survey: which small changes of the package do the definition tables notice?

python3 -W ignore tools/mutate.py SEED COUNT [module substring]: draws COUNT random one-place changes, parses each changed package (nothing is run),
evaluates the definition rows that reach the changed function, and prints one line per change: caught / quiet / unreached.
"""
import ast, copy, os, random, sys, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from analysis.loader import Project
from analysis.deps import Deps
from analysis.report import Result
from analysis import compare as C
from checks import tables

SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.And: ast.Or, ast.Or: ast.And, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.In: ast.NotIn, ast.NotIn: ast.In}
FN = {'mean': 'median', 'sin': 'cos', 'cos': 'sin', 'sum': 'mean', 'max': 'min', 'min': 'max', 'log10': 'log', 'log': 'log10', 'floor': 'ceil', 'ceil': 'floor', 'fftshift': 'ifftshift', 'ifftshift': 'fftshift',
      'zeros': 'ones', 'ones': 'zeros', 'var': 'std', 'std': 'var', 'arctan': 'arctan2', 'fftn': 'ifftn', 'real': 'imag', 'sqrt': 'abs', 'round': 'floor', 'exp': 'log', 'argmin': 'argmax', 'cumsum': 'cumprod', 'sinh': 'cosh'}
SKIPMOD = {'test_case', '__init__', 'plotting', 'segmentation', 'radio_telescope_layout_data', 'deprecated'}


def sites(fn):
    """mutations of one function: (description, function that applies it to the copied nodes)"""
    out = []
    nodes = list(ast.walk(fn))
    doc = fn.body[0].value if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    params = [a.arg for a in fn.args.args if a.arg != 'self']
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if name in ('print', 'print_msg', 'warn', 'Exception', 'ValueError', 'format', 'NotImplementedError', 'TypeError', 'tqdm', 'loading_verbose', 'KeyError', 'IOError', 'AttributeError', 'IndexError', 'ImportError'):
                skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            skip |= {id(x) for x in ast.walk(n)}
    for i, n in enumerate(nodes):
        if n is doc or id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append((i, 'op %s' % ast.unparse(n)[:60], 'op'))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow):
            out.append((i, 'pow %s' % ast.unparse(n)[:60], 'pow'))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            out.append((i, 'cmp %s' % ast.unparse(n)[:60], 'cmp'))
        elif isinstance(n, ast.BoolOp):
            out.append((i, 'bool %s' % ast.unparse(n)[:60], 'bool'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((i, 'un %s' % ast.unparse(n)[:60], 'un'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((i, 'const %r' % n.value, 'const'))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append((i, 'swapargs %s' % ast.unparse(n)[:60], 'swapargs'))
            if n.keywords:
                out.append((i, 'dropkw %s' % ast.unparse(n)[:60], 'dropkw'))
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in FN:
                out.append((i, 'fn %s' % ast.unparse(n)[:60], 'fn'))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params and len(params) > 1:
            out.append((i, 'name %s' % n.id, 'name'))
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            out.append((i, 'dropself %s' % ast.unparse(n)[:60], 'drop'))
        elif isinstance(n, ast.AugAssign):
            out.append((i, 'aug %s' % ast.unparse(n)[:60], 'aug'))
    return out


def apply(tree, qual, line, i, kind, rnd):
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef,)) and fn.name == qual.split('.')[-1] and fn.lineno == line:
            break
    nodes = list(ast.walk(fn))
    n = nodes[i]
    params = [a.arg for a in fn.args.args if a.arg != 'self']
    if kind == 'op':
        n.op = SWAP[type(n.op)]()
    elif kind == 'pow':
        n.right = ast.BinOp(n.right, ast.Add(), ast.Constant(1))
    elif kind == 'cmp':
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif kind == 'bool':
        n.op = SWAP[type(n.op)]()
    elif kind == 'un':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'const':
        n.value = n.value + 1 if isinstance(n.value, int) else n.value * 1.5 + (1 if n.value == 0 else 0)
    elif kind == 'swapargs':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'dropkw':
        n.keywords.pop(rnd.randrange(len(n.keywords)))
    elif kind == 'fn':
        n.func.attr = FN[n.func.attr]
    elif kind == 'name':
        n.id = rnd.choice([p for p in params if p != n.id])
    elif kind == 'drop':
        n.value = ast.Name(n.targets[0].id, ast.Load())
    elif kind == 'aug':
        n.op = SWAP.get(type(n.op), ast.Add)()
    return ast.fix_missing_locations(tree)


def reaching(P, D):
    """row -> functions its evaluation goes through"""
    out = []
    seen = set()
    for pid, rows in tables.T.items():
        for r in rows:
            if id(r) in seen:
                continue
            seen.add(id(r))
            f = C.find(P, r.qual)
            if f is None:
                continue
            got, todo = set(), [f]
            while todo:
                g = todo.pop()
                if g.qual in got:
                    continue
                got.add(g.qual)
                for c in list(D.sums[g].calls):
                    if c[0].qual not in r.opaque:
                        todo.append(c[0])
                todo += list(g.nested.values())
            out.append((r, got))
    return out


def job(a):
    mod, qual, line, i, desc, kind, seed = a
    import signal
    rnd = random.Random(seed)

    def tr(tree, name):
        return apply(tree, qual, line, i, kind, rnd) if name == mod else tree
    try:
        P = Project(transform=tr)
    except Exception as e:
        return a, 'error', str(e)[:80]
    rows = [r for r, got in ROWS if qual in got]
    if not rows:
        return a, 'unreached', ''
    und = []
    rows.sort(key=lambda r: r.qual != qual)
    for r in rows[:6]:
        R = Result()
        try:
            C.compare(P, PR, [r], R, jobs=1)
        except Exception as e:
            und.append('exc ' + str(e)[:60])
            continue
        if R.findings:
            return a, 'caught', r.qual
        und += [u for u in R.undecided]
    return a, 'quiet', (und[0].split(' -- ')[-1][:90] if und else 'EQUAL') + ' rows=%d' % len(rows)


def main():
    global ROWS, PR
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ''
    P = Project()
    D = Deps(P)
    ROWS = reaching(P, D)
    PR = C.reference_project()
    rnd = random.Random(seed)
    cand = []
    for f in P.all_functions():
        if f.module.name in SKIPMOD or isinstance(f.node, ast.Lambda) or sub not in f.qual:
            continue
        s = sites(f.node)
        if s:
            cand.append((f, s))
    jobs = []
    seen = set()
    while len(jobs) < count:
        f, s = rnd.choice(cand)
        i, desc, kind = rnd.choice(s)
        if (f.qual, i, kind) in seen:
            continue
        seen.add((f.qual, i, kind))
        jobs.append((f.module.name, f.qual, f.node.lineno, i, desc, kind, rnd.random()))
    with mp.get_context('fork').Pool(int(os.environ.get('J', '4')), maxtasksperchild=8) as pool:
        for a, res, why in pool.imap_unordered(job, jobs, chunksize=1):
            print('%-9s %-55s %-50s %s' % (res, a[1], a[4], why), flush=True)


if __name__ == '__main__':
    main()
