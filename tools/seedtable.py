#!/usr/bin/env python3
"""Table of the planted bugs, for DESIGN.md: replaces what is between the marks.
Outcomes are read from tools/outcomes.json ({id: [checks which catch it]})."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = json.load(open(os.path.join(H, 'tools', 'outcomes.json')))
rows = ['| change | needs, to manifest | caught by |', '|---|---|---|']
D = os.path.join(H, 'seeded')
for i in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, i, 'meta.json')))
    c = out.get(i)
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), ', '.join(c) if c else '**missed**' if c is not None else '?'))
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*(<!-- /seeds -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
