#!/usr/bin/env python3
"""Writes the table of planted changes of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append('`%s` (%s)' % (os.path.basename(os.path.dirname(m)), d['needs']))
table = '| property | changes caught by its quick check, and what they need |\n|----|----|\n'
table += ''.join('| %s | %s |\n' % (p, '; '.join(v)) for p, v in sorted(rows.items()))
p = root + '/DESIGN.md'
s = open(p).read()
a = s.index('<!-- planted -->') + len('<!-- planted -->\n')
b = s.index('<!-- /planted -->')
open(p, 'w').write(s[:a] + table + s[b:])
print(sum(len(v) for v in rows.values()), 'changes')
