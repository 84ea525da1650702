#!/usr/bin/env python3
"""Freeze the list of functions of the reference tree (run only on the unchanged tree)."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mmgsa import build
kf = os.path.join(build.HERE, 'known_functions.txt')
open(kf, 'w').write('')
names = set()
b = build.Build()
for v in ('dbg', 'ndebug'):
    for u, d in b.facts(v, True).items():
        for f in d['functions']: names.add(f['name'])
open(kf, 'w').write('\n'.join(sorted(names)) + '\n')
print(len(names))
