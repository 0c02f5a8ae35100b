#!/usr/bin/env python3
"""Record which settings every public function depends on in the repaired tree (specs/config.json, reviewed and committed; never written by a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from analysis.loader import Project
from analysis.deps import Deps
from checks.p02 import Settings, config_of
P = Project()
D = Deps(P)
S = Settings(P, D)
out = {}
for f in P.all_functions():
    if f.public:
        c = sorted(config_of(S, D.sums[f]))
        if c:
            out[f.qual] = c
json.dump(out, open(os.path.join(HERE, 'specs', 'config.json'), 'w'), indent=0, sort_keys=True)
print(len(out))
