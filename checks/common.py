"""Shared driver of the checks that compare functions with their reference definitions."""
from analysis.loader import Project
from analysis.report import Result
from analysis.compare import compare, compare_module, reference_project
from . import tables

TECHNIQUE = ('global value numbering over the syntax tree: each function is reduced, for the declared kinds of its arguments and '
             'every listed option value, to a normal form of the expression it returns, raises or stores (helpers, locals, loops and '
             'array idioms expanded); the normal form is compared with that of an independently written definition in specs/; '
             'a construct that provably computes something else with the same operations is the violation')
ASSUMPTIONS = ['library functions behave as their documentation says; identities used by the normal form are listed in analysis/vglib.py and terms.py',
               'floating-point rounding is ignored: expressions equal over the reals are equal',
               'functions rewritten with operations the definition does not use are counted as undecided, not as violations']


def definitions(pid, R=None, P=None, modules=()):
    R = R or Result()
    P = P or Project()
    PR = reference_project()
    R.rules['definition'] = 'the value a function returns, raises or stores is the one of its reference definition'
    R.rules['default'] = 'a documented default value is the one in the signature'
    specs = tables.T.get(pid, [])
    for m in modules:
        R.rules['constant'] = 'module-level constants and derived values are those of the reference'
        compare_module(P, PR, m, R)
    if specs:
        compare(P, PR, specs, R)
    R.counts['reference_definitions'] = len(specs)
    R.counts['option_cases'] = sum(len(s.cases) for s in specs)
    return R
