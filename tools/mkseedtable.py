"""Prints the table of DESIGN.md that tells which planted bugs each check catches."""
import collections, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)).split('-', 1)[1])
rows = ['| check | planted bugs of its property that its quick tier catches |', '|---|---|'] + ['| %s | %s |' % (k, ', '.join(v)) for k, v in sorted(d.items())]
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- end of seeds -->'
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
