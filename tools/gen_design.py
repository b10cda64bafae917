#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], ' '.join(m['needs'].split()).replace('|', '/')))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- count -->.*?<!-- /count -->', '<!-- count -->%d<!-- /count -->' % len(rows), s)
s = re.sub(r'<!-- seeds -->\n.*?<!-- /seeds -->', lambda m: '<!-- seeds -->\n| change | caught by | what it needs to show |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
