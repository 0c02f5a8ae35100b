"""P12: unknown option values are rejected."""
import json, os
from analysis.loader import Project, AnalysisError
from analysis.report import Result
from .options import Options, OPEN
from .common import definitions, TECHNIQUE as DEFT, ASSUMPTIONS as DEFA

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MINIMUM = 300
TECHNIQUE = ('path-correlated abstract interpretation of every public function with one option holding an unknown word (a value different from every word it is compared with): '
             'no path may return normally; every word of the reviewed choice table (specs/options.json) must still have a path that does; plus ' + DEFT)
ASSUMPTIONS = ['library functions that select by word reject unknown ones'] + DEFA


def run(tier):
    P = Project()
    R = Result()
    R.rules = {'unknown-accepted': 'an unknown word given for a closed option ends in an error on every path',
               'choice-lost': 'every documented choice is accepted', 'choice-case': 'choices are accepted in any case where they were'}
    with open(os.path.join(HERE, 'specs', 'options.json')) as fh:
        table = json.load(fh)
    O = Options(P)
    seen = set()
    for q, ps in table.items():
        try:
            f = P.func(q)
        except AnalysisError:
            raise
        for p, e in ps.items():
            seen.add((f.qual, p))
            if p not in f.params:
                if f.kwarg:
                    R.skip('%s %s' % (q, p), 'taken through **%s' % f.kwarg)
                else:
                    R.bad('choice-lost', f.where, p, 'the option %r is gone' % p, f.node.lineno)
                continue
            lv, words = O.level(f, p)
            if lv == 'open' or (e['level'] == 'always' and lv == 'default'):
                R.bad('unknown-accepted', f.where, p, 'an unknown value of %r (known here: %s) reaches a normal return' % (p, ', '.join(sorted(words)) or 'none'), f.node.lineno)
            else:
                R.ok('%s rejects unknown %s' % (f.where, p))
            for w in e['words']:
                if O.accepted(f, p, w, e['level']):
                    R.ok('%s accepts %s=%s' % (f.where, p, w))
                else:
                    R.bad('choice-lost', f.where, '%s=%s' % (p, w), 'the documented choice %r of %r is rejected' % (w, p), f.node.lineno)
            if e['any_case']:
                lost = [w for w in e['words'] if w.swapcase() != w and not O.accepted(f, p, w.swapcase(), e['level'])]
                if lost and len(lost) == len([w for w in e['words'] if w.swapcase() != w]):
                    R.bad('choice-case', f.where, p, 'choices of %r are now case sensitive' % p, f.node.lineno)
                else:
                    R.ok('%s accepts %s in any case' % (f.where, p))
    nf = 0
    for f in P.all_functions():
        if not f.public or f.module.name == 'apply_mpi_lya_c':
            continue
        nf += 1
        for p in f.user_params:
            if (f.qual, p) in seen or (f.qual, p) in OPEN:
                continue
            lv, words = O.level(f, p)
            if lv == 'open' and words:
                R.bad('unknown-accepted', f.where, p, 'an unknown value of %r (known here: %s) reaches a normal return' % (p, ', '.join(sorted(words))), f.node.lineno)
    R.counts = {'functions': nf, 'closed_options': len(seen), 'function_option_states': len(O.R.memo)}
    return definitions('P12', R, P)
