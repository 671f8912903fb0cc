"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | file | needs |', '|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    f = re.findall(r'^\+\+\+ b/(.*)', open(d + 'patch.diff').read(), re.M)
    rows.append(f"| {d.split('/')[-2]} | {', '.join(x.split('/')[-1] for x in f)} | {m['needs']} |")
s = open(R + '/DESIGN.md').read()
a, rest = s.split('<!-- seeded -->')
b = rest.split('<!-- /seeded -->')[1]
open(R + '/DESIGN.md', 'w').write(a + '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->' + b)
