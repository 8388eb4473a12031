#!/usr/bin/env python3
"""Rewrites the table between the SEEDS markers of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
rows = ['| Bug | Property | Needs | Breaks |', '|-----|----------|-------|--------|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
t = open('/verif/DESIGN.md').read()
t = re.sub(r'(<!-- SEEDS -->\n).*?(<!-- /SEEDS -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), t, flags=re.S)
open('/verif/DESIGN.md', 'w').write(t)
