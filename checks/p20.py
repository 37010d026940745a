"""P20: directory filters: the innermost include decides, its excludes cut out (spec DirFilter)."""


def path(comps):
    return '/' + '/'.join(comps)


NAMES = [('f.move', 'move'), ('f', ''), ('.move', ''), ('f.', ''), ('f.rs', 'rs'), ('f.move.rs', 'rs'), ('f.MOVE', 'MOVE'), ('move', '')]
EXTS = [['move'], ['rs', 'move'], [], [''], ['move', 'rs', '']]


def check(ck):
    runs = [('DirsDef', 2)] + ([('DirsBig', 2)] if ck.thorough else [])
    if ck.thorough:
        runs.append(('DirsSmall', 3))
    gen = []
    for dirs, n in runs:
        gen += ck.emitted('DirFilterGen', label='all lists of %d directories (%s)' % (n, dirs),
                          constants={'Dirs': '<- ' + dirs, 'MaxList': str(n), 'Queries': '<- QueriesDef'},
                          invariants=['OrderFree', 'ExcludeWins', 'Reincluded', 'Emit'])
    queries = sorted({tuple(q) for g in gen for q in g['selected']})
    cases, expected = [], []

    def add(extra, selected, exts):
        files, fe = [], []
        for q in queries:
            name, ext = NAMES[(len(cases) + len(files)) % len(NAMES)]
            files.append(path(q + (name,)))
            # a file lies in no excluded or included directory that its directory does not lie in
            fe.append(q in selected and ext in exts)
        cases.append(dict(extra, files=files, dirs=[path(q) for q in queries]))
        expected.append({'files': fe, 'dirs': [q in selected for q in queries]})
    for g in gen:
        selected = {tuple(q) for q in g['selected']}
        exts = EXTS[len(cases) % len(EXTS)]
        inc, exc = [path(d) for d in g['include']], [path(d) for d in g['exclude']]
        add({'include': inc, 'exclude': exc, 'extensions': exts}, selected, exts)
    ck.compare('filters', cases, expected, ck.run('dirfilter', cases))
    ck.sample({'case': cases[len(cases) // 2], 'expected': expected[len(cases) // 2]})

    # explicit lists of files
    cases = [{'standard': 'files', 'include': ['/p/a.rs', '/p/b'], 'files': ['/p/a.rs', '/p/b', '/p/b/c', '/p', '/p//b'],
              'dirs': ['/p', '/p/b']}]
    ck.compare('lists of files', cases, [{'files': [True, True, False, False, True], 'dirs': [False, False]}],
               ck.run('dirfilter', cases))

    # the standard filters, and random ones
    special = ['src', '.git', 'target', 'tests', 'examples', 'benches', 'git', 'test', 'targets', 'x']
    cases, meta = [], []
    for k in range(800 if ck.thorough else 200):
        def rand(lo, hi):
            return [ck.rng.choice(special) for _ in range(ck.rng.randint(lo, hi))]
        c = {'standard': 'no', 'base': [], 'include': [], 'exclude': [], 'extensions': ck.rng.choice(EXTS)}
        if k % 4 == 0:
            c['standard'] = ['recursive', 'package', 'dependency'][k // 4 % 3]
            c['base'] = rand(0, 2)
            c['extensions'] = ['rs']
            near = [c['base']]
        else:
            # some with long lists
            most = 4 if k % 16 != 1 else 40
            c['include'] = [rand(0, 3) for _ in range(ck.rng.randint(0, most))]
            near = c['include'] or [[]]
            c['exclude'] = [ck.rng.choice(near) + rand(0, 2) for _ in range(ck.rng.randint(0, most))]
        dirs = [ck.rng.choice(near + c['exclude']) + rand(0, 3) for _ in range(12)] + [rand(0, 3), []]
        files = [(d + [n[0]], n[1]) for d in dirs for n in [ck.rng.choice(NAMES)]]
        case = {'files': [path(f) for f, _ in files], 'dirs': [path(d) for d in dirs]}
        if c['standard'] == 'no':
            case.update(include=[path(d) for d in c['include']], exclude=[path(d) for d in c['exclude']],
                        extensions=c['extensions'])
        else:
            case.update(standard=c['standard'], base=path(c['base']))
        cases.append(case)
        meta.append((c, dirs, files))
    records, which = [], []
    for case, (c, dirs, files), r in zip(cases, meta, ck.run('dirfilter', cases)):
        if 'ok' not in r:
            ck.violation('the filter failed: %s' % r, {'part': 'random', 'case': case, 'got': r})
            continue
        records.append(dict(c, dirs=[{'path': d, 'got': g} for d, g in zip(dirs, r['ok']['dirs'])],
                            files=[{'path': f, 'ext': e, 'got': g} for (f, e), g in zip(files, r['ok']['files'])]))
        which.append(case)
    for b in ck.validate('DirFilterCases', records):
        i = b['bad'] - 1
        ck.violation('a filter selects other paths than specified', {'part': 'random', 'case': which[i], 'got': records[i]})
