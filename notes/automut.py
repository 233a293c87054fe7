#!/usr/bin/env python3
"""automut.py CHECK KIND N [SEED]: weaken guards of the tree one at a time and list those the check does not notice
kinds: null (drop a null test), bound (shift or drop a comparison of sizes)"""
import glob, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sites(kind):
    out = []
    for f in sorted(glob.glob('/repo/src/**/*.cpp', recursive=True)):
        s = open(f).read()
        if kind == 'null':
            for m in re.finditer(r'if \((!\w+)\) \{\n\s+(return|continue)', s):
                out.append((f, m.start(1), m.end(1), 'false'))
            for m in re.finditer(r'(?<=[(\s])(!\w+ \|\| )', s):
                out.append((f, m.start(1), m.end(1), ''))
            for m in re.finditer(r'( \|\| !\w+)(?=[) ])', s):
                out.append((f, m.start(1), m.end(1), ''))
            for m in re.finditer(r'(?<=[(\s])(\w+ && )', s):
                out.append((f, m.start(1), m.end(1), ''))
            for m in re.finditer(r'if \((\w+)\) \{', s):
                out.append((f, m.start(1), m.end(1), 'true'))
            for m in re.finditer(r'= (\w+) \? ', s):
                out.append((f, m.start(1), m.end(1), 'true'))
        else:
            for m in re.finditer(r'(\S*(?:size\(\)|getNumArgs\(\)|getNumParams\(\)|param_size\(\)|empty\(\))[^&|;{\n]*?)(?=\s*(?:&&|\|\||\) \{))', s):
                t = m.group(1)
                a = m.start(1)
                while t and t[0] == '(':
                    t = t[1:]; a += 1
                if t.count('(') > t.count(')'):
                    continue
                out.append((f, a, a + len(t), 'true'))
                out.append((f, a, a + len(t), 'false'))
    return out


def one(x):
    n, (f, a, b, new), chk = x
    s = open(f).read()
    w = '/tmp/automut.%d' % n
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
    open(w + f[5:], 'w').write(s[:a] + new + s[b:])
    r = subprocess.run(['python3', V + '/check.py', chk], env=dict(os.environ, CLAZY_REPO=w), capture_output=True, text=True)
    shutil.rmtree(w, ignore_errors=True)
    ln = s.count('\n', 0, a) + 1
    line = s[s.rindex('\n', 0, a) + 1:s.index('\n', a)].strip()
    return '%s %s:%d %r -> %r   %s   %s' % ({0: 'MISS', 1: 'ok', 2: 'BROKEN'}.get(r.returncode, '?'), f[10:], ln, s[a:b], new, line[:90], r.stderr.strip().split('\n')[-1][:100] if r.returncode == 2 else '')


chk, kind, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
ss = sites(kind)
print(len(ss), 'sites')
random.shuffle(ss)
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for r in ex.map(one, [(i, x, chk) for i, x in enumerate(ss[:n])]):
        print(r, flush=True)
