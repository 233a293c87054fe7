#!/usr/bin/env python3
"""apply.py TREE FILE.py...: apply all refactorings to the tree"""
import importlib.util, sys
t = sys.argv[1]
for a in sys.argv[2:]:
    sp = importlib.util.spec_from_file_location('r', a); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for f, es in m.R:
        p = t + '/src/' + f
        s = open(p).read()
        for old, new in es:
            if s.count(old) < 1:
                print('NOT APPLICABLE', f, repr(old[:70])); continue
            s = s.replace(old, new, 1)
        open(p, 'w').write(s)
