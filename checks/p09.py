"""P09: each file belongs to exactly one file set: the one with the longest root (spec FileSets)."""
import core


def path(comps):
    return ('#' if comps[0] == '#' else '') + '/' + '/'.join(comps[1:])


def comps(p):
    return ['#' if p[0] == '#' else '/'] + [x for x in p.lstrip('#').split('/') if x]


def spell(rel):
    return '../' * rel['up'] + './' * rel['dots'] + '/'.join(rel['down'])


def check(ck):
    # all small configurations, with the partition the specification prescribes
    runs = [('RealRoots', 2, 2), ('VirtualRoots', 2, 2), ('RealRoots', 3, 1), ('VirtualRoots', 3, 1), ('MixedRoots', 2, 2)]
    if ck.thorough:
        runs += [('RealBig', 2, 2), ('VirtualBig', 2, 2), ('RealRoots', 1, 3), ('MixedRoots', 3, 1), ('MixedRoots', 1, 3)]
    gen = []
    for roots, sets, per in runs:
        gen += ck.emitted('FileSetsGen', label='all configurations: %d sets of %d roots (%s)' % (sets, per, roots),
                          constants={'Roots': '<- ' + roots, 'Files': '<- FilesDef', 'MaxSets': str(sets),
                                     'MaxRoots': str(per)},
                          invariants=['Laws', 'OrderFree', 'Emit'])
    cases, expected = [], []
    for n, g in enumerate(gen):
        files = [path(f) for s in g['sets'] for f in s]
        ck.rng.shuffle(files)
        gone = ['/a/a/gone', '/gone', '#/a/gone']
        listing = [[f, True] for f in files]
        for f in gone:
            listing.insert(ck.rng.randrange(len(listing) + 1), [f, False])
        cases.append({'config': [[path(r) for r in s] for s in g['config']], 'files': listing, 'queries': []})
        expected.append({'sets': [sorted(path(f) for f in s) for s in g['sets']], 'inverse': True, 'answers': []})
    ck.compare('configurations', cases, expected, ck.run('filesets', cases))
    ck.sample({'case': cases[len(cases) // 2], 'expected': expected[len(cases) // 2]})
    random_part(ck, 'P09', 600 if ck.thorough else 150)


def random_part(ck, pid, n):
    """Large random populations; TLC computes their partition, and what paths resolve to."""
    names = ['a', 'b', 'ab', 'a.move', 'b.move', 'src', 'A', 'a-b', 'é', '日', 'x' * 40, 'a\\b', 'a\\', '\\', 'a b', 'a:b', '.a', 'a.', '..a', '#']

    def rand(lo, hi):
        return [ck.rng.choice(names) for _ in range(ck.rng.randint(lo, hi))]
    raw = []
    for k in range(n):
        kinds = ['/', '#', '/#'][k % 3]
        kind = lambda: [ck.rng.choice(kinds)]
        # some with many files, sets and roots
        big = 3 if k % 75 == 37 else k % 25 in (1, 12, 23)
        files = {tuple(kind() + rand(1, 5)) for _ in range(ck.rng.randint(1, 25) if not big else ck.rng.randint(100, 300))}
        if k % 3 == 2:
            # spelled alike, on the file system and outside of it
            files |= {tuple(kind()) + f[1:] for f in sorted(files)}
        config = []
        for _ in range(ck.rng.randint(0, 5) if not big else ck.rng.randint(5 * big, 20 * big)):
            roots = []
            for _ in range(ck.rng.randint(0, 4) if not big else ck.rng.randint(0, 12)):
                r = kind() + rand(0, 3)
                if files and ck.rng.random() < 0.5:
                    f = ck.rng.choice(sorted(files))
                    r = (kind() if ck.rng.random() < 0.3 else [f[0]]) + list(f[1:ck.rng.randint(1, len(f))])
                roots.append(r)
            config.append(roots)
        removed = {f for f in sorted(files) if ck.rng.random() < 0.2}
        files = sorted(files)
        ck.rng.shuffle(files)
        queries = []
        for _ in range(8 if pid == 'P10' else 2):
            a = ck.rng.choice(files)
            t = ck.rng.choice(files)
            dots = ck.rng.choice([0, 0, 0, 1, 2, 3])
            # mostly relative paths that lead to an existing file
            d = list(a[1:-1])
            if ck.rng.random() < 0.7:
                j = 0
                while j < len(d) and j < len(t) - 2 and d[j] == t[j + 1]:
                    j += 1
                if ck.rng.random() < 0.2:
                    j = ck.rng.randint(0, j)
                rel = {'up': len(d) - j, 'dots': dots, 'down': list(t[j + 1:])}
            else:
                rel = {'up': ck.rng.randint(0, len(d) + 2), 'dots': dots, 'down': rand(1, 3)}
            queries.append((list(a), rel))
        raw.append((config, files, removed, queries))
    cases = []
    for config, files, removed, queries in raw:
        cases.append({'config': [[path(r) for r in s] for s in config],
                      'files': [[path(f), f not in removed] for f in files],
                      'queries': [[path(a), spell(r)] for a, r in queries]})
    records, which = [], []
    for c, (config, files, removed, queries), r in zip(cases, raw, ck.run('filesets', cases)):
        if 'ok' not in r:
            ck.violation('partition failed: %s' % r, {'part': 'random', 'case': c, 'got': r})
            continue
        r = r['ok']
        if not r['inverse']:
            ck.violation('the views of a file set disagree', {'part': 'random', 'case': c, 'got': r})
        records.append({'config': config, 'files': [list(f) for f in files if f not in removed],
                        'sets': [[comps(p) for p in s] for s in r['sets']],
                        'queries': [{'anchor': a, 'rel': rel, 'got': [comps(x) if x is not None else ['?'] for x in ans]}
                                    for (a, rel), ans in zip(queries, r['answers'])]})
        which.append(c)
    for b in ck.validate('FileSetsCases', records):
        i = b['bad'] - 1
        ck.violation('a recorded partition or resolution is not the specified one',
                     {'part': 'random', 'case': which[i], 'got': records[i], 'expected': b['expected']})
