#!/usr/bin/env python3
"""seedtable.py RESULTS : markdown table for DESIGN.md from lines 'id|deductive|oracle|note'."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| bug | needs | caught by |\n|---|---|---|')
for l in open(sys.argv[1]):
    i, how = l.rstrip('\n').split('|')
    m = json.load(open(os.path.join(H, 'seeded', i, 'meta.json')))
    print('| %s | %s | %s |' % (i, m['needs'], how))
