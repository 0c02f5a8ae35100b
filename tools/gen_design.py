#!/usr/bin/env python3
"""Refresh the generated parts of DESIGN.md: the obligation counts and the table of planted bugs (and which checks catch them).

  gen_design.py            tables from the notes in seeded/*/meta.json and tools/caught.json
  gen_design.py --run      re-applies every planted bug to a copy and runs all checks first (minutes)
"""
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = os.path.join(HERE, 'tools', 'caught.json')


def checks():
    return [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]


def run(ids):
    caught = json.load(open(NOTES)) if os.path.exists(NOTES) else {}
    for sid in ids:
        w = '/tmp/gd_' + sid
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run(['cp', '-a', '/repo/src', w], check=True)
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, os.path.join(HERE, 'seeded', sid, 'patch.diff')], cwd='/', check=True)

        def one(pid):
            r = subprocess.run([sys.executable, 'check.py', pid], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, T2C_REPO=w, T2C_EVIDENCE=w))
            return pid if r.returncode == 1 else None
        with ThreadPoolExecutor(8) as ex:
            caught[sid] = [x for x in ex.map(one, checks()) if x]
        shutil.rmtree(w)
        print(sid, caught[sid], flush=True)
    json.dump(caught, open(NOTES, 'w'), indent=1, sort_keys=True)


def main():
    ids = sorted(os.path.basename(d.rstrip('/')) for d in glob.glob(os.path.join(HERE, 'seeded', '*/')))
    have = json.load(open(NOTES)) if os.path.exists(NOTES) else {}
    if '--run' in sys.argv:
        run(ids)
    elif '--new' in sys.argv:
        run([i for i in ids if i not in have])
    caught = json.load(open(NOTES)) if os.path.exists(NOTES) else {}
    caught = {k: v for k, v in caught.items() if k in ids}
    rows = ['| planted bug | property | what it needs | what it breaks | caught by |', '|---|---|---|---|---|']
    for sid in ids:
        m = json.load(open(os.path.join(HERE, 'seeded', sid, 'meta.json')))
        rows.append('| %s | %s | %s | %s | %s |' % (sid, m['property'], m['needs'], m['what_it_breaks'], ', '.join(caught.get(sid, [])) or 'none'))
    text = open(os.path.join(HERE, 'DESIGN.md')).read()
    text = re.sub(r'(<!-- seeds -->\n).*?(\n<!-- /seeds -->)', lambda k: k.group(1) + '\n'.join(rows) + k.group(2), text, flags=re.S)
    n = {}
    for f in glob.glob(os.path.join(HERE, 'evidence', 'P*.json')):
        e = json.load(open(f))
        n[e['property']] = e['coverage']['obligations']
    text = re.sub(r'^(\| (P\d\d) [^|]*\|[^|]*\|[^|]*\| )\d+ \|$', lambda k: '%s%d |' % (k.group(1), n.get(k.group(2), 0)), text, flags=re.M)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)


main()
