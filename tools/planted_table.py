"""Rewrites the list of planted bugs in DESIGN.md; no check uses it."""
import collections
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d[json.load(open(p))['property']].append(os.path.basename(os.path.dirname(p)))
t = '\n'.join('* %s: %s' % (k, ', '.join(d[k])) for k in sorted(d))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'(<!-- table -->\n).*?(<!-- /table -->)', lambda m: m.group(1) + t + '\n' + m.group(2), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
print(sum(map(len, d.values())))
