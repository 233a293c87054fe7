#!/usr/bin/env python3
"""mkseed.py SEEDS.py: writes seeded/<id>/{patch.diff,demo.sh,meta.json} from a list of edits"""
import importlib.util, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
# Run with cwd /repo after the build: exit 0 if the behaviour is as it should be.
set -u
export LC_ALL=C.UTF-8
unset CLAZY_CHECKS CLAZY_EXTRA_OPTIONS CLAZY_CHECKS_AS_ERRORS CLAZY_NO_WERROR CLAZY_HEADER_FILTER CLAZY_IGNORE_DIRS
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d) && trap 'rm -rf -- "$T"' EXIT
cd "$T" || exit 2
LLVM=/usr/lib/llvm-20/bin
Q=/usr/include/x86_64-linux-gnu/qt6
FLAGS="-std=c++17 -fPIC -DQT_CORE_LIB -isystem $Q -isystem $Q/QtCore"
# plugin CHECKS FILE [FLAGS...]
plugin() { local c=$1 f=$2; shift 2; $LLVM/clang++ -fsyntax-only $FLAGS -Xclang -load -Xclang "$REPO/_build/lib/ClazyPlugin.so" -Xclang -add-plugin -Xclang clazy -Xclang -plugin-arg-clazy -Xclang "$c" "$@" "$f" 2>&1; }
# standalone CHECKS FILES... [-- FLAGS]
standalone() { local c=$1; shift; "$REPO/_build/bin/clazy-standalone" -checks="$c" "$@" -- $FLAGS 2>&1; }
'''


def main():
    sp = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    only = sys.argv[2:]
    for s in m.SEEDS:
        if only and s['id'] not in only:
            continue
        w = tempfile.mkdtemp(prefix='mkseed')
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (w, w), shell=True, check=True)
        for f, old, new in s['edits']:
            p = os.path.join(w, 'src', f)
            t = open(p).read()
            assert t.count(old) >= 1, (s['id'], f, old)
            open(p, 'w').write(t.replace(old, new, 1))
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
        d = '%s/seeded/%s' % (V, s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(PRE + s['demo'].strip() + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(w)
        print(s['id'], len(diff))


main()
