#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ''
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows += '| %s | %s | %s | check %s |\n' % (os.path.basename(d), m['property'], m['needs'], m['property'])
s = open(V + '/DESIGN.md').read()
s = re.sub(r'(\| id \| property \| needs \| found by \|\n\|---\|---\|---\|---\|\n)(\|.*\n)*', lambda k: k.group(1) + rows, s)
open(V + '/DESIGN.md', 'w').write(s)
