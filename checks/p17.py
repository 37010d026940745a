"""P17: line and column conversion is exact and invertible (spec LineTable)."""
from lib.core import text_of


def check(ck):
    n = '6' if ck.thorough else '5'
    gen = ck.emitted('LineTableGen', label='all texts of up to %s characters' % n,
                     constants={'Alphabet': '{97, 10, 233, 26085, 128512}', 'MaxLen': n},
                     invariants=['LawInvertible', 'LawPieces', 'Emit'])
    cases = [{'s': g['s']} for g in gen]
    ck.compare('conversions', cases, [{'points': g['points'], 'ranges': g['ranges']} for g in gen],
               ck.run('lines', cases), lambda c, e, r: 'text %r: %s' % (text_of(c['s']), str(r)[:200]))
    ck.extra['boundaries_replayed'] = sum(len(g['points']) for g in gen)
    ck.sample({'text': gen[200]['s'], 'points': gen[200]['points']})

    # long texts, with long lines, many lines, and every width of character
    cases = []
    for k in range(1200 if ck.thorough else 300):
        pool = [97, 32, 10, 13, 9, 127, 128, 233, 2047, 2048, 26085, 65535, 65536, 128512, 0x10ffff, 0, 0x2028]
        pool = ck.rng.sample(pool, ck.rng.randint(2, len(pool)))
        if ck.rng.random() < 0.8:
            pool += [10] * ck.rng.randint(1, 3)
        s = [ck.rng.choice(pool) for _ in range(ck.rng.randint(1, 260))]
        if k % 7 == 0:
            s = [97] * ck.rng.randint(60, 140) + s
        ranges = []
        for _ in range(12):
            i, j = sorted((ck.rng.randint(0, len(s)), ck.rng.randint(0, len(s))))
            ranges.append([i, j])
        cases.append({'s': s, 'ranges': ranges + [[0, len(s)]]})
    records, which = [], []
    for c, r in zip(cases, ck.run('lines', cases)):
        if 'ok' not in r:
            ck.violation('conversion failed on %r: %s' % (text_of(c['s']), r), {'part': 'random', 'case': c, 'got': r})
            continue
        records.append({'s': c['s'], 'points': r['ok']['points'],
                        'ranges': [{'i': a[0], 'j': a[1], 'got': g} for a, g in zip(c['ranges'], r['ok']['ranges'])]})
        which.append(c)
    for b in ck.validate('LineTableCases', records):
        i = b['bad'] - 1
        ck.violation('conversions of %r are not those of the text' % text_of(which[i]['s']),
                     {'part': 'random', 'case': which[i], 'got': records[i]})

    # very long lines and very many lines: texts as runs
    t = '4' if ck.thorough else '3'
    ck.model('LineRunsGen', label='runs count like characters',
           constants={'Alphabet': '{97, 10, 233, 128512}', 'MaxRuns': t, 'MaxRun': '2'}, invariants=['Agrees'])
    cases = []
    for k in range(120 if ck.thorough else 40):
        runs = []
        for _ in range(ck.rng.randint(1, 12)):
            c = ck.rng.choice([97, 97, 32, 10, 10, 233, 2047, 26085, 65535, 128512, 0x10ffff])
            n = ck.rng.choice([1, 2, 3, ck.rng.randint(1, 300)])
            if ck.rng.random() < 0.4:
                # around the sizes where narrow counters end
                n = max(1, ck.rng.choice([127, 255, 256, 4095, 32767, 65535, 65536, 70000]) + ck.rng.randint(-3, 3))
            runs.append([c, n])
        total = sum(n for _, n in runs)
        if total > 300000:
            continue
        at = set()
        for i, (_, n) in enumerate(runs):
            at |= {(i + 1, m) for m in {0, 1, n - 1, n, ck.rng.randint(0, n)}}
        cases.append({'runs': runs, 'at': sorted(at)})
    records, which = [], []
    for c, r in zip(cases, ck.run('runlines', cases)):
        if 'ok' not in r:
            ck.violation('conversion failed in a text of the runs %s: %s' % (c['runs'], r), {'part': 'runs', 'case': c, 'got': r})
            continue
        records.append({'runs': c['runs'], 'at': c['at'], 'points': r['ok']['points'], 'pieces': r['ok']['pieces']})
        which.append(c)
    for b in ck.validate('LineRunsCases', records):
        i = b['bad'] - 1
        ck.violation('conversions in a text of the runs %s are not those of the text' % which[i]['runs'],
                     {'part': 'runs', 'case': which[i], 'got': records[i], 'expected': b['expected']})
