#!/usr/bin/env python3
"""Lists the planted bugs that change no line of the original repository (they do not count)."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'e1d3d43'
for s in sorted(os.listdir(V + '/seeded')):
    p = V + '/seeded/' + s + '/patch.diff'
    files = {}
    cur = None
    for l in open(p):
        m = re.match(r'^--- a/(\S+)', l)
        if m:
            cur = m.group(1)
        elif l.startswith('@@'):
            m = re.match(r'@@ -(\d+)', l); n = int(m.group(1))
        elif cur and l.startswith('-') and not l.startswith('---'):
            files.setdefault(cur, []).append(n); n += 1
        elif cur and l.startswith(' '):
            n += 1
    own = orig = 0
    for f, ls in files.items():
        for n in ls:
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', '-L%d,%d' % (n, n), 'HEAD', '--', f], capture_output=True, text=True).stdout
            c = b.split()[0].lstrip('^')
            o = subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', c, BASE]).returncode == 0
            orig += o; own += not o
    print('%-28s original %d own %d%s' % (s, orig, own, '' if orig and not own else '  <<<' if not orig else '  mixed'))
