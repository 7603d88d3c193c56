#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, 'seeded')
print('| change | property | needs |\n|---|---|---|')
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    print('| %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/')))
