"""P01: no public call modifies data the caller handed in."""
from analysis.loader import Project
from analysis.effects import Effects
from analysis.report import Result

MINIMUM = 600
TECHNIQUE = ('interprocedural flow-sensitive alias/mutation (effect) analysis over the syntax trees: every parameter of every '
             'public function is an abstract root; assignments, views, containers, fields and calls propagate roots; an in-place '
             'write whose target may be a root is reported at the public entry point with the call chain to the writing construct')
ASSUMPTIONS = ['calls through values (operators passed as parameters) do not modify their arguments',
               'library functions modify only what their documentation says (table in analysis/effects.py)',
               'indexing with an array or mask copies, slicing shares memory (numpy semantics)',
               'multiplying in place by a unit object rebinds the name (astropy semantics)']
# in-place by documented contract: the argument is the canvas the function paints on
CONTRACT = {('spa_np.py:put_sphere', 'array'), ('test_case.py:paint_kernel', 'cube')}


def run(tier):
    P = Project()
    E = Effects(P)
    R = Result()
    R.rules = {'param-mutated': 'a parameter of a public function may be written through',
               'field-mutated': 'an array handed to a constructor and kept as a field is written through by a method',
               }
    nf = 0
    for f in P.all_functions():
        if not f.public:
            continue
        nf += 1
        s = E.sums[f]
        for p in f.params:
            if p == f.self_name:
                continue
            w = s.mut.get(('p', p))
            if w is None or (f.where, p) in CONTRACT:
                R.ok('%s(%s)' % (f.where, p))
            else:
                R.bad('param-mutated', f.where, p, 'the caller\'s %r is modified: %s' % (p, w[0]), w[1], w[2])
    ncls = 0
    for m in P.modules.values():
        for c in m.classes.values():
            ncls += 1
            fields = E.class_fields(c)
            for name, meth in c.methods.items():
                for r, w in E.sums[meth].mut.items():
                    if r[0] != 's':
                        continue
                    hit = None
                    for mm, v in fields.get(r[1], []):
                        for q in v.own | (v.elems if False else frozenset()):
                            if q[0] == 'p' and mm.public:
                                hit = (mm, q[1])
                    if hit:
                        R.bad('field-mutated', meth.where, 'self.' + r[1],
                              'field %r holds the caller\'s %r given to %s and is modified: %s' % (r[1], hit[1], hit[0].name, w[0]), w[1], w[2])
                    else:
                        R.ok('%s field %s' % (meth.where, r[1]))
    R.counts = {'functions': nf, 'classes': ncls, 'call_sites_visited': E.callsites, 'fixpoint_rounds': E.rounds}
    return R
