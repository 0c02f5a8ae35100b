"""Record the closed options of the reviewed tree in specs/options.json (run by hand after a review)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from analysis.loader import Project
from checks.options import Options, OPEN
P = Project()
O = Options(P)
out = {}
for f in P.all_functions():
    if not f.public or f.module.name == 'apply_mpi_lya_c':
        continue
    for p in f.user_params:
        lv, words = O.level(f, p)
        if not words:
            continue
        if lv == 'open':
            if (f.qual, p) not in OPEN:
                print('OPEN', f.qual, p, sorted(words))
            continue
        acc = [w for w in sorted(words) if O.accepted(f, p, w, lv)]
        case = [w for w in acc if w.swapcase() != w and O.accepted(f, p, w.swapcase(), lv) and w.swapcase() not in words]
        out.setdefault(f.qual, {})[p] = {'level': lv, 'words': acc, 'any_case': bool(case)}
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'options.json'), 'w'), indent=1, sort_keys=True)
print(sum(len(v) for v in out.values()), 'options')
