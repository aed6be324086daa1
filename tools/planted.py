#!/usr/bin/env python3
"""Prints the list of the planted bugs for DESIGN.md, from seeded/*/meta.json and seeded/CAUGHT."""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
by = {}
for l in open(os.path.join(here, '..', 'tools', 'caught.txt')):
    l = l.split()
    if l: by[l[0]] = l[1:]
for d in sorted(glob.glob(here + '/*/meta.json')):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    c = by.get(i)
    print(f"* `{i}` ({m['property']}): {m['what_it_breaks']} — " + ('caught by ' + ' '.join(c) if c else 'MISSED'))
