"""Record the guard slice of every function (specs/guards/*.py).  Run only after a reviewed change of /repo."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from analysis.loader import Project, own_walk
from analysis import guards
from analysis.deps import Deps

# too large a decision tree for the comparison; P22 decides these
EXCLUDE = {'radio_telescope_noise.get_uv_map_lightcone'}
OUT = os.path.join(HERE, 'specs', 'guards')


def main():
    os.makedirs(OUT, exist_ok=True)
    for fn in os.listdir(OUT):
        if fn.endswith(('.py', '.json')):
            os.remove(os.path.join(OUT, fn))
    P = Project()
    known = {}
    rows = []
    quals = sorted(f.qual for f in P.all_functions())
    for m in P.modules.values():
        known[m.name] = sorted({f.name for f in m.all_funcs if f.parent is None})
    for m in P.modules.values():
        has = [f for f in m.all_funcs if f.parent is None and any(isinstance(n, (ast.Raise, ast.Assert)) for n in own_walk(f.node))]
        if not has or m.name == 'test_case':
            continue
        rows += [f.qual for f in has if f.qual not in EXCLUDE]
        t = guards.transform(known)(m.tree, m.name)
        body = []
        for s in t.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and sum(1 for _ in ast.walk(s)) > 80:
                continue
            if isinstance(s, ast.If) and 'main' in ast.unparse(s.test):
                continue
            if isinstance(s, ast.ClassDef):
                s.body = [x for x in s.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] or [ast.Pass()]
            body.append(s)
        t.body = body
        with open(os.path.join(OUT, m.name + '.py'), 'w') as f:
            f.write('"""Recorded guards of %s.py: which arguments and states are refused."""\n' % m.name + ast.unparse(t) + '\n')
    with open(os.path.join(OUT, 'table.json'), 'w') as f:
        json.dump({'known': known, 'functions': quals, 'rows': sorted(rows)}, f, indent=1)
    D = Deps(P)
    r = {f.qual: sorted({t[1] for t in D.sums[f].raises if t[0] == 'p' and t[1] in f.user_params}) for f in P.all_functions() if f.public and f.module.name != 'test_case'}
    with open(os.path.join(OUT, 'raises.json'), 'w') as f:
        json.dump({k: v for k, v in sorted(r.items()) if v}, f, indent=1)
    print(len(rows), 'functions with guards')


main()
