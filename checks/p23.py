"""P23: topology back-ends agree."""
import ast, os
from analysis.loader import Project, AnalysisError
from analysis.report import Result
from analysis.compare import compare, reference_project, Spec
from analysis import pyxread
from .common import definitions, TECHNIQUE as T0, ASSUMPTIONS as A0

MINIMUM = 40
TECHNIQUE = T0 + '; the loop, joblib-worker, tensor and Cython versions of the periodic cell complex (the Cython file read as Python) are each reduced and compared with one definition'
ASSUMPTIONS = A0 + ['numba compiles the function it is given unchanged', 'skimage.measure.label counts connected components as documented']
PYX = 'ViteBetti_cython.pyx'


def run(tier):
    R = Result()
    R.rules['cython-definition'] = 'the compiled version of the cell complex computes what the reference definition computes'
    base = Project()
    extra = {}
    path = os.path.join(base.src, PYX)
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            text, flags = pyxread.to_python(f.read())
        try:
            ast.parse(text)
            extra['vt_pyx'] = text
        except SyntaxError as e:
            R.skip(PYX, 'not readable as Python: %s' % e)
        if ('cdivision', True) in flags and ('wraparound', False) in flags:
            R.bad('cython-definition', PYX, 'directives', 'C remainder with unwrapped indices: neighbours of the first cell lie outside the array', 1)
    else:
        R.skip(PYX, 'file is gone')
    if extra:
        P = Project(extra=extra)
        S = Result()
        compare(P, reference_project(), [Spec('vt_pyx.CubeMap', {'arr': 'arr3'}, [{'multi_marker': True}, {'multi_marker': False}], ref='ViteBetti.CubeMap', limit=120)], S, rule='cython-definition')
        R.instances += S.instances
        R.undecided += S.undecided
        R.counts.update(S.counts)
        for f in S.findings:
            R.bad(f.rule, PYX + ':CubeMap', f.construct, f.message, f.line)
    return definitions('P23', R)
