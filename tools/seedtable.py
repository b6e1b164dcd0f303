#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (section 6) from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| change | property | breaks | shows when | caught by |\n|---|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    print('| %s | %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs'], m['property']))
