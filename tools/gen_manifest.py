#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks present in checks/."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from tools.na_reasons import REASONS
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        m = importlib.import_module('checks.' + pid.lower())
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid,
                       'thorough_cmd': 'python3 check.py %s --thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': 'static analysis: ' + m.TECHNIQUE,
                       'level': getattr(m, 'LEVEL', 'other'),
                       'level_note': getattr(m, 'LEVEL_NOTE', None) or (
                           'Decides the clause named in the technique for the current source text; assumes: ' + '; '.join(m.ASSUMPTIONS))})
    else:
        na.append({'property': pid, 'reason': REASONS.get(pid, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q analysis checks specs tools >/dev/null 2>&1 || true',
           'checks': checks, 'not_applicable': na,
           'notes': 'Every check parses /repo/src/tools21cm on each run and never imports or executes it.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
