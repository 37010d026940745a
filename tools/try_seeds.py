#!/usr/bin/env python3
"""Applies each planted bug to /repo in turn and runs its property's check (by hand; no check uses this).
Usage: try_seeds.py [ID...]; writes what was caught to tools/caught.json."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
out = os.path.join(V, 'tools', 'caught.json')
res = json.load(open(out)) if os.path.exists(out) else {}
for i in sys.argv[1:] or sorted(os.listdir(S)):
    meta = json.load(open(os.path.join(S, i, 'meta.json')))
    a = subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(S, i, 'patch.diff')])
    if a.returncode:
        print(i, 'DOES NOT APPLY'); continue
    try:
        t = time.time()
        p = subprocess.run([sys.executable, 'bin/check.py', meta['property'], '--tier', 'quick'], cwd=V,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    caught = p.returncode == 1 and 'VIOLATION property=%s ' % meta['property'] in p.stdout
    res[i] = {'property': meta['property'], 'caught': caught}
    first = [l for l in p.stdout.splitlines() if 'violation:' in l][:1]
    print(i, meta['property'], 'CAUGHT' if caught else 'MISSED (rc %d)' % p.returncode, '%.0f s' % (time.time() - t), (first or [p.stdout[-300:]])[0][:200], flush=True)
    json.dump(res, open(out, 'w'), indent=1, sort_keys=True)
