"""Common driver of the checks: known findings, evidence, exit status."""
import importlib
import json
import os
import sys
import time
import traceback

from .extract import VERIF, AnalysisBroken

EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Result:
    def __init__(self):
        self.violations = []       # dicts: rule, function, where, what, path
        self.coverage = {}
        self.assumptions = []

    def report(self, rule, function, where, what, path=None):
        v = {'rule': rule, 'function': function, 'where': where, 'what': what}
        if path:
            v['path'] = path
        if v not in self.violations:
            self.violations.append(v)

    def need(self, name, count, least):
        """a rule that matches fewer instances than were confirmed by hand decides nothing"""
        self.coverage[name] = count
        if count < least:
            raise AnalysisBroken('%s: %d instances found, at least %d expected' % (name, count, least))


def known_for(pid):
    try:
        with open(KNOWN) as f:
            k = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in k.get('findings', []) if e['property'] == pid]


def matches(entry, v):
    return entry['rule'] == v['rule'] and entry['function'] == v['function'] and entry['what'] in v['what']


def main(argv):
    pid = argv[1]
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    mod = importlib.import_module('cv.checks.' + pid)
    res = Result()
    try:
        mod.check(res, thorough)
    except AnalysisBroken as e:
        print('analysis broken: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = known_for(pid)
    new = []
    for v in res.violations:
        k = [e for e in known if matches(e, v)]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['describe']))
        else:
            new.append(v)
    os.makedirs(EVID, exist_ok=True)
    cov = dict(res.coverage)
    cov.setdefault('explanation', mod.__doc__.strip())
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov, 'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in sorted(cov.items()) if isinstance(v, (int, bool)))))
    if new:
        rp = os.path.join(EVID, pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1)
        for v in new:
            print('  %s: [%s] in %s: %s' % (v['where'], v['rule'], v['function'], v['what']))
            for s in v.get('path', ()):
                print('      %s' % s)
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, VERIF)))
        return 1
    return 0
