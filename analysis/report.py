"""Findings, known findings, evidence and exit codes."""
import json, os, re, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Finding:
    """One violating construct.  `key` identifies rule + construct, never a line number."""

    def __init__(self, rule, where, construct, message, line=None, path=()):
        self.rule, self.where, self.construct, self.message, self.line, self.path = rule, where, construct, message, line, tuple(path)

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.where, self.construct)


class Result:
    """What a check analysed and found."""

    def __init__(self):
        self.findings = []
        self.instances = []       # obligations decided (strings)
        self.undecided = []       # obligations the analysis could not decide (quiet)
        self.rules = {}
        self.counts = {}
        self.notes = []

    def ok(self, what):
        self.instances.append(what)

    def bad(self, *a, **k):
        f = Finding(*a, **k)
        if f.key not in {g.key for g in self.findings}:
            self.findings.append(f)

    def skip(self, what, why):
        self.undecided.append('%s -- %s' % (what, why))


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def moved(f, known, present):
    """the listed finding this one is, when the listed construct now stands in a function split off from the listed one:
    same rule, file and construct, nothing left at the listed place, and a function that did not exist when the list was written"""
    for k in known:
        rule, where, construct = k.split('|', 2)
        file, _, fn = where.partition(':')
        if rule != f.rule or construct != f.construct or file != f.where.partition(':')[0] or k in present or not fn:
            continue
        if '%s.%s' % (file[:-3], f.where.partition(':')[2]) not in recorded_functions():
            return k
    return None


def recorded_functions():
    global _FUNCS
    if _FUNCS is None:
        with open(os.path.join(HERE, 'specs', 'guards', 'table.json'), encoding='utf-8') as o:
            _FUNCS = set(json.load(o)['functions'])
    return _FUNCS


_FUNCS = None


def finish(pid, res, level, t0, tier, minimum, technique, assumptions):
    known = load_known().get(pid, {})
    viol, listed = [], []
    for f in res.findings:
        k = f.key if f.key in known else None
        if k is None:
            k = moved(f, known, {g.key for g in res.findings})
        (listed if k else viol).append((f, k))
    for f, k in listed:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, known[k], f.key))
    viol = [f for f, k in viol]
    edir = os.environ.get('T2C_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    n = len(res.instances)
    cov = {
        'explanation': technique,
        'rules': res.rules,
        'obligations': n + len(res.findings) + len(res.undecided),
        'discharged': n,
        'undecided': len(res.undecided),
        'violating_constructs': len(viol),
        'known_findings': len(listed),
        'counts': res.counts,
        'samples': sample(res.instances, 25),
        'undecided_samples': sample(res.undecided, 40),
        'minimum_instances_required': minimum,
    }
    if level == 'proof':
        cov['checker_cmd'] = 'python3 check.py %s' % pid
        cov['trusted_base'] = ['CPython ast parser', 'analysis/*.py']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    if viol:
        ev['coverage']['violations'] = [dict(rule=f.rule, where=f.where, construct=f.construct, message=f.message, line=f.line, path=list(f.path)) for f in viol]
    with open(os.path.join(edir, pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    if n + len(res.findings) < minimum:
        print('ERROR: %s decided only %d obligations, expected at least %d: an anchor of the analysis is gone' % (pid, n, minimum))
        return 2
    if viol:
        rp = os.path.join(edir, pid + '.violations.txt')
        with open(rp, 'w') as o:
            for f in viol:
                o.write('%s\n  where: %s (line %s)\n  construct: %s\n  %s\n' % (f.rule, f.where, f.line, f.construct, f.message))
                for p in f.path:
                    o.write('    via %s\n' % p)
        for f in viol[:40]:
            print('%s: %s (line %s): %s: %s' % (pid, f.where, f.line, f.rule, f.message))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: %d obligations decided, %d undecided, %d known findings, no violation (%.1fs)' % (pid, n, len(res.undecided), len(listed), time.time() - t0))
    return 0


def sample(l, n):
    if len(l) <= n:
        return list(l)
    step = len(l) / n
    return [l[int(i * step)] for i in range(n)]
