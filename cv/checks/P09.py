"""What is registered is what checks.json and the documentation promise: level, fix-its, class and place of every check."""
import json
import os
import re
from ..extract import REPO, AnalysisBroken
from ..ir import Program
from ..table import enum_values, num, registered

LEVELS = {-1: 'ManualCheckLevel', 0: 'CheckLevel0', 1: 'CheckLevel1', 2: 'CheckLevel2'}
SECTION = {'manual level': -1, 'level 0': 0, 'level 1': 1, 'level 2': 2}
DIRS = {-1: 'manuallevel', 0: 'level0', 1: 'level1', 2: 'level2'}


def readme():
    """{check: (level of the section it is listed in, fix-its that are mentioned with it)}"""
    p = os.path.join(REPO, 'README.md')
    out, lv = {}, None
    for l in open(p, encoding='utf-8') if os.path.exists(p) else ():
        m = re.search(r'[Cc]hecks from (manual level|level \d)', l, re.I)
        if m:
            lv = SECTION.get(m.group(1).lower())
            continue
        m = re.search(r'\[([\w-]+)\]\(docs/checks/README-([\w-]+)\.md\)(.*)', l)
        if m and lv is not None:
            out[m.group(1)] = (lv, set(re.findall(r'fix-[\w-]+', m.group(3))), m.group(2))
    return out


def check(res, thorough):
    prog = Program()
    table, fixes = registered(prog)
    lev = enum_values(prog, 'CheckLevel')
    try:
        js = {c['name']: c for c in json.load(open(os.path.join(REPO, 'checks.json'), encoding='utf-8'))['checks']}
    except (OSError, ValueError, KeyError) as x:
        raise AnalysisBroken('checks.json: %s' % x)
    doc = readme()
    n = 0
    have = {}
    for e in table:
        have[e.name] = e
        rep = lambda what: res.report('metadata', e.fn.name, e.where, '%s: %s' % (e.name, what))
        c = js.get(e.name)
        n += 1
        if not c:
            rep('is registered but not described in checks.json')
            continue
        lv = c.get('level', 0)
        if e.level != lev.get(LEVELS.get(lv)):
            rep('is registered for level %s, checks.json says level %s' % (e.level, lv))
        n += 1
        d = doc.get(e.name)
        if d and lev.get(LEVELS[d[0]]) != e.level:
            rep('is registered for level %s, the README lists it in level %s' % (e.level, d[0]))
        elif doc and not d:
            rep('is not listed in the README')
        n += 1
        want = c.get('class_name') or e.name.replace('-', '')
        if want.lower() != e.cls.split('::')[-1].lower():
            rep('runs %s' % e.cls)
        n += 1
        if e.made and len(e.made) > 1 and num(e.made[1]) is not None and bool(num(e.made[1])) != bool(c.get('can_ignore_includes')):
            rep('%s included files, which checks.json does not say' % ('may leave out' if num(e.made[1]) else 'does not leave out'))
        n += 1
        if not os.path.exists(os.path.join(REPO, 'docs/checks/README-%s.md' % e.name)):
            rep('has no documentation')
        r = prog.records.get(e.cls)
        n += 1
        if r and not r['l'].startswith('checks/%s/' % DIRS.get(lv)):
            rep('is of level %s, but its class is in %s' % (lv, r['l'].split(':')[0]))
        mine = [f for f in fixes if f[2] == e.name]
        n += 1
        if sorted(f[1] for f in mine) != sorted('fix-' + x['name'] for x in c.get('fixits', ())):
            rep('has the fix-its %s, checks.json says %s' % (', '.join(f[1] for f in mine) or 'none', ', '.join('fix-' + x['name'] for x in c.get('fixits', ())) or 'none'))
        elif d and sorted(f[1] for f in mine) != sorted(d[1]):
            rep('has the fix-its %s, the README says %s' % (', '.join(f[1] for f in mine) or 'none', ', '.join(sorted(d[1])) or 'none'))
        ids = [f[0] for f in mine]
        if len(set(ids)) != len(ids):
            rep('gives two fix-its the same number')
    for name in sorted(set(js) - set(have)):
        n += 1
        f = prog.one('CheckManager::registerChecks')
        res.report('metadata', f.name, f.where(f.body), '%s is described in checks.json but not registered' % name)
    for i, fix, name, fn, where in fixes:
        n += 1
        if name not in have:
            res.report('metadata', fn.name, where, 'the fix-it %s belongs to %s, which is not registered' % (fix, name))
        if not fix or not fix.startswith('fix-'):
            res.report('metadata', fn.name, where, 'the fix-it %s does not start with fix-' % fix)
    res.need('metadata_obligations', n, 200)
    res.need('fixits', len(fixes), 5)
