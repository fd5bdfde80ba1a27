"""Print every harness with its bounds as markdown (the list at the end of DESIGN.md)."""
import importlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from engine import api
sys.path.insert(0, api.REPO)
for i in range(1, 25):
    mod = importlib.import_module('checks.c%02d' % i)
    print('\n### C%02d' % i)
    for h in api.HARNESSES[mod.__name__].values():
        n = '' if h.params == [None] else ' (%d shards)' % len(h.params)
        t = '' if 'quick' in h.slow else ' [thorough only]'
        o = ' Outside: %s.' % h.outside.rstrip('.') if h.outside else ''
        print('- `%s`%s%s: %s.%s' % (h.name, n, t, h.bounds.rstrip('.'), o))
