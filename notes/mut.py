#!/usr/bin/env python3
"""mut.py [-b] [-v] [-k SUBSTR|N] [--keep] FILE.py: try the mutants of a list (file, old, new, expected checks or '' for an
equivalent edit) in scratch copies, several at a time; -b also compiles the changed file"""
import importlib.util, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mutrepo'


def one(n, mu, m, keep):
    f, old, new, exp = mu[:4]
    w = W if keep else '%s.%d' % (W, n)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run('git -C ' + os.environ.get('BASE', '/repo') + ' archive HEAD | tar x -C ' + w, shell=True, check=True)
    p = os.path.join(w, f if f.startswith(('docs/', 'dev-scripts/', 'src/')) or '/' not in f and os.path.exists(os.path.join(w, f)) else 'src/' + f)
    s = open(p).read()
    if s.count(old) < 1:
        return '%2d %s: NOT APPLICABLE %r' % (n, f, old[:60])
    open(p, 'w').write(s.replace(old, new, 1))
    if keep:
        return 'kept'
    out, lines = {}, []
    env = dict(os.environ, CLAZY_REPO=w)
    for c in (exp.split(',') if exp else m.CHECKS):
        r = subprocess.run(['python3', V + '/check.py', c.lstrip('!')], env=env, capture_output=True, text=True)
        out[c] = (r.returncode, [l for l in r.stdout.splitlines() if l.startswith('  src')][:2], r.stderr[-300:] if r.returncode == 2 else '')
    ok = all((r[0] == 1) == (bool(exp) and not c.startswith('!')) and r[0] != 2 for c, r in out.items())
    lines.append('%2d %s %s: %s' % (n, 'ok ' if ok else 'BAD', f, old.strip().split('\n')[0][:50]) + ' ' + str({c: r[0] for c, r in out.items()}))
    if not ok or '-v' in sys.argv:
        for c, r in out.items():
            lines += ['      ' + l[:220] for l in r[1]] + (['      ' + r[2]] if r[2] else [])
    shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(lines)


def main():
    a = sys.argv[1:]
    k = None
    if '-k' in a:
        i = a.index('-k'); k = a[i + 1]; del a[i:i + 2]
    a = [x for x in a if not x.startswith('-')]
    sp = importlib.util.spec_from_file_location('m', a[0]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    todo = [(n, mu) for n, mu in enumerate(m.M) if not k or (k == str(n) if k.isdigit() else k in mu[0] + mu[1] + mu[3])]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda x: one(x[0], x[1], m, '--keep' in sys.argv), todo):
            print(r, flush=True)


main()
