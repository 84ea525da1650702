#!/usr/bin/env python3
"""Builds the fact extractor and the facts of the current tree (only a warm-up: every check can do it itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mmgsa.build import Build
b = Build(); b.irfacts(); d = b.facts('dbg')
print('units analysed:', len(d))
