"""Rewrites the list of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
head = s[:s.index('\n* ', s.index('## Planted bugs'))]
lines = []
for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', n, 'meta.json')))
    lines.append('* %s%s: %s' % (n, '' if n.startswith(m['property']) else ' (%s)' % m['property'],
                                m['what_it_breaks']))
open(path, 'w').write(head + '\n' + '\n'.join(lines) + '\n')
print(len(lines))
