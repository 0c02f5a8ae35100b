"""P07: whole-number input is not silently truncated."""
import ast
from analysis.loader import Project, own_walk
from analysis.numkind import Kinds
from analysis.report import Result

MINIMUM = 300
TECHNIQUE = ('abstract interpretation of number kinds over the syntax trees (element type chosen by the caller / whole by construction / real-valued / unknown), '
             'flow-sensitive and interprocedural with the kinds of the actual arguments: real values written into storage that takes its element type from an argument '
             '(zeros_like, full_like, copy, insert, out=, in-place arithmetic, astype(x.dtype)) or into integer storage, filters that return the type of their input, '
             'negative whole powers of caller-typed arrays, and type tests that accept float but not int')
ASSUMPTIONS = ['numpy and scipy element-type rules as documented', 'overflow of narrow integer types is out of scope', 'values of unknown kind are not reported']
OK = {}


def float_tests(P, f, R, seen):
    """isinstance(x, float) with no branch for integers"""
    for n in own_walk(f.node):
        types = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2:
            types = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
            who = n.args[0]
        elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == 'type' and n.left.args and \
                isinstance(n.ops[0], (ast.Eq, ast.Is, ast.In, ast.NotEq, ast.IsNot, ast.NotIn)):
            c = n.comparators[0]
            types = c.elts if isinstance(c, (ast.Tuple, ast.List)) else [c]
            who = n.left.args[0]
        if types is None:
            continue
        names = {ast.unparse(t).split('.')[-1] for t in types}
        real = names & {'float', 'float64', 'float32', 'floating', 'inexact'}
        whole = names & {'int', 'integer', 'Number', 'Real', 'number', 'generic', 'complexfloating'}
        if not real:
            continue
        seen[0] += 1
        if not isinstance(who, ast.Name) or who.id not in f.params:
            continue
        # another test of the same function may accept integers
        other = any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == 'isinstance' and m is not n and len(m.args) == 2 and ast.unparse(m.args[0]) == who.id and
                    ({ast.unparse(t).split('.')[-1] for t in (m.args[1].elts if isinstance(m.args[1], ast.Tuple) else [m.args[1]])} & {'int', 'integer', 'Number', 'Real', 'number'}) for m in own_walk(f.node))
        if not whole and not other:
            R.bad('float-test', f.where, who.id, '`%s` tells a whole number from the equal real number' % ast.unparse(n)[:70], n.lineno)


def run(tier):
    P = Project()
    R = Result()
    R.rules = {'inherited-type': 'real values are stored with the element type of an input',
               'integer-storage': 'real values are stored in an integer array',
               'filter-type': 'a filter returns real values in the element type of its input',
               'integer-power': 'a caller-typed array is raised to a negative whole power',
               'float-test': 'a type test treats whole numbers differently from equal real numbers'}
    found = {}

    def report(rule, f, node, what, msg):
        found.setdefault((rule, f.where, what), (msg, node.lineno))
    K = Kinds(P, report)
    seen = [0]
    n = 0
    for f in P.all_functions():
        if f.module.name == 'test_case' or f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        before = len(found)
        K.top(f)
        n += 1
        float_tests(P, f, R, seen)
        R.ok('%s: element types' % f.where)
    for (rule, where, what), (msg, line) in sorted(found.items()):
        if where.startswith('test_case.py'):
            continue
        R.bad(rule, where, what, msg, line)
    R.counts['functions_analysed'] = n
    R.counts['contexts'] = len(K.memo)
    R.counts['array_stores'] = K.stores
    R.counts['array_stores_of_unknown_kind'] = K.unk_stores
    R.counts['type_tests'] = seen[0]
    return R
