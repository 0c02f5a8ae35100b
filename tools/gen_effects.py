#!/usr/bin/env python3
"""Record which kinds of effect every public parameter has in the repaired tree (specs/effects.json, reviewed and committed; never written by a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from analysis.loader import Project
from analysis.deps import Deps
from checks.p05 import effects_of, MESSAGES, PRINTERS
P = Project()
D = Deps(P)
out = {}
for f in P.all_functions():
    if not f.public or f.qual in PRINTERS:
        continue
    for p in f.user_params:
        if p in MESSAGES or p in (f.vararg, f.kwarg):
            continue
        # closing a stream or drawing is an effect, but not one a rewrite has to keep in that form
        e = sorted(effects_of(D.sums[f], p) - {'raise'} - (set() if ('p', p) in D.sums[f].io and not f.name.startswith('read') else {'io'}))
        if e:
            out.setdefault(f.qual, {})[p] = e
json.dump(out, open(os.path.join(HERE, 'specs', 'effects.json'), 'w'), indent=0, sort_keys=True)
print(len(out), sum(len(v) for v in out.values()))
