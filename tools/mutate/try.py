#!/usr/bin/env python3
"""Tries hand-written bugs in the lanes of mutate.py (by hand; no check uses this).
   try.py LANES FILE.py [ID...]   FILE.py defines B = [(id, property, [(file, old, new)...])...]
Runs the property's check on each; what it misses goes through the file's other checks and the stable tests."""
import os, sys, threading, json, time
sys.argv, args = [sys.argv[0], 'none'], sys.argv[1:]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutate.py')).read().rsplit('\nmain()', 1)[0])
lanes, g = int(args[0]), {}
exec(open(args[1]).read(), g)
todo = [b for b in g['B'] if not args[2:] or b[0] in args[2:]][::-1]
os.makedirs(TOP + '/cache', exist_ok=True)
for b in todo:
    for file, old, new in b[2]:
        n = open('/repo/' + file).read().count(old)
        if n != 1:
            print('BAD', b[0], file, n, repr(old)); sys.exit(1)
for k in range(lanes):
    setup(k, lanes)


def tried(k, b):
    files = {}
    for file, old, new in b[2]:
        f = '%s/L%d/repo/%s' % (TOP, k, file)
        s = open(f).read()
        files.setdefault(f, s)
        assert s.count(old) == 1, (b[0], file)
        open(f, 'w').write(s.replace(old, new))
    try:
        others = [c for c in dict.fromkeys(c for e in b[2] for c in checks_of(e[0])) if c != b[1]]
        notes = []
        for c in [b[1]] + others:
            rc, out = inside(k, 'python3 bin/check.py %s --tier quick' % c)
            if rc == 1 and 'VIOLATION property=' in out:
                what = ([l for l in out.splitlines() if 'violation:' in l] or [''])[0][:160]
                return ('caught' if c == b[1] else 'MISSED by ' + b[1] + ', caught by') + ' ' + c + ' ' + what
            if rc:
                return 'rc %d from %s: %s' % (rc, c, out[-700:])
        ok, why = stable_ok(k)
        return 'MISSED (tests %s)' % ('pass' if ok else why[:3])
    finally:
        for f, s in files.items():
            open(f, 'w').write(s)


lock = threading.Lock()


def lane(k):
    while True:
        with lock:
            if not todo:
                return
            b = todo.pop()
        t = time.time()
        r = tried(k, b)
        with lock:
            print(b[0], b[1], '%ds' % (time.time() - t), r, flush=True)


ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
[t.start() for t in ts]
[t.join() for t in ts]
