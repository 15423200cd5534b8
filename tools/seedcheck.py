#!/usr/bin/env python3
"""Runs the quick check of its property against every planted bug: seedcheck.py [-a] [id...]; -a runs all the checks."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '-a']
everything = '-a' in sys.argv
pids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for s in sorted(os.listdir(V + '/seeded')):
    if args and s not in args:
        continue
    d = V + '/seeded/' + s
    own = json.load(open(d + '/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        caught = []
        for pid in (pids if everything else [own]):
            t = time.time()
            p = subprocess.run(['python3', V + '/run.py', pid, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
            out = p.stdout.decode('utf-8', 'replace')
            if p.returncode == 1 and 'VIOLATION property=' + pid in out:
                caught.append(pid)
            elif p.returncode != 0:
                caught.append('%s:rc%d %s' % (pid, p.returncode, out[-300:]))
        print(s, own, 'CAUGHT' if own in caught else 'missed', ' '.join(caught), '%.0fs' % (time.time() - t), flush=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
