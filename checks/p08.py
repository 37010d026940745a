"""P08: the virtual file system's change log reproduces its contents (spec VfsLog)."""

A = 'module M {\n' + '    fun f() { a }\n' * 40 + '}\n'
# pairs of contents and of paths that are easily taken for equal
CONTENTS = [('x', 'y'), ('', 'x'), ('x', 'xx'), ('x', 'x\n'), ('x\r\n', 'x\n'), ('x', 'X'), (' ', '\t'), ('ab', 'ba'),
            ('\u00e9', 'e\u0301'), (A, A[:300] + 'b' + A[301:]), (A, A[:-1] + ' '), ('!' + A, '?' + A), (A, A + A),
            ('\0', '\0\0'), ('a' * 70000, 'a' * 69999 + 'b'), ('1', '01'), ('\U0001f600', '\U0001f601')]
PATHS = [('/a', '/a/b'), ('/a', '/A'), ('/a', '/a.move'), ('/\u00e9', '/e\u0301'), ('/a b', '/a%20b'),
         ('/' + 'd/' * 60 + 'a', '/' + 'd/' * 60 + 'b'), ('/ab/c', '/a/bc'), ('/' + 'a' * 200 + 'x', '/' + 'a' * 200 + 'y')]


def check(ck):
    base = {'Absent': '"-"'}
    # every behaviour of the bounded specification, which has the property...
    depth = 6 if ck.thorough else 5
    hists = ck.emitted('VfsLogGen', spec='GSpec', label='all histories of %d operations' % depth,
                       constants=dict(base, Paths='{"/a","/a/b"}', Contents='{"x","y"}', Depth=str(depth)),
                       invariants=['Distinct', 'LogReproduces', 'Emit'], properties=['Stable'])
    # ... is replayed into the real file system
    cases = []
    for k, h in enumerate(hists):
        c, p = CONTENTS[k % len(CONTENTS)], PATHS[k // len(CONTENTS) % len(PATHS)]
        cases.append({'ops': [s['op'] for s in h], 'real': k % 3 == 0,
                      'names': {'x': c[0], 'y': c[1], '/a': p[0], '/a/b': p[1]}})
    expected = [[s['obs'] for s in h] for h in hists]
    ck.compare('histories', cases, expected, ck.run('vfs', cases), first_difference)
    ck.sample({'history': hists[len(hists) // 2]})
    if ck.thorough:
        ck.model('VfsLogGen', spec='GSpec', label='deeper histories of the specification alone',
                 constants=dict(base, Paths='{"/a","/a/b","/c"}', Contents='{"x","y"}', Depth='6'),
                 invariants=['TypeOK', 'Distinct', 'LogReproduces'], properties=['Stable'])

    # long random histories of the real file system are validated against the specification
    n, length = (500, 150) if ck.thorough else (100, 60)
    cases = []
    for k in range(n):
        # some with many files, and many changes between takes
        big = k % 25 in (3, 4)
        paths = ['/p%d' % i for i in range(ck.rng.randint(1, 9) if not big else ck.rng.randint(70, 140))] + ['/d/p0', '/d/e/p1.move']
        contents = ['', 'x', 'y', 'x y', 'xx'] + ['-'] * ck.rng.randint(1, 3)
        ops = []
        for _ in range(length if not big else 300):
            if ck.rng.random() < (0.15 if not big else 0.01):
                ops.append({'op': 'take'})
            else:
                ops.append({'op': 'set', 'p': ck.rng.choice(paths), 'c': ck.rng.choice(contents)})
        x, y = ck.rng.choice(CONTENTS)
        cases.append({'ops': ops, 'real': k % 2 == 1,
                      'names': {'': x + '.', 'x': y + '.', 'y': x + '..', 'x y': 'z', 'xx': ''}})
    traces, which = [], []
    for c, r in zip(cases, ck.run('vfs', cases)):
        if 'ok' not in r:
            ck.violation('the file system failed: %s' % r, {'part': 'random', 'case': c, 'got': r})
        else:
            traces.append([{'op': o, 'obs': b} for o, b in zip(c['ops'], r['ok'])])
            which.append(c)
    for i, line in ck.validate_traces('VfsLogTrace', traces, spec='TSpec',
                                      invariants=['Accept', 'LogReproduces', 'Distinct'],
                                      constants=dict(base, Paths='{}', Contents='{}')):
        ck.violation('a recorded history is not one of the specification',
                     {'part': 'random', 'case': which[i], 'got': traces[i]})


def first_difference(c, e, r):
    if 'ok' not in r:
        return 'history %s: %s' % (c, r)
    for k, (a, b) in enumerate(zip(e, r['ok'])):
        if a != b:
            return 'after %s: expected %s, got %s' % (c['ops'][:k + 1], a, b)
    return 'length'
