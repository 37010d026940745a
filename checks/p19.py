"""P19: path arithmetic is exact and stays inside the root (spec PathOps)."""
from core import cps_of, text_of

RELS = ['a', '..', '../a', '../../b', './a', '/b', 'a/../b', '', '../../../a']
BASES = ['/', '/a', '/a/', '/a/b', '/.a', '/a/..']


def check(ck):
    gen = []
    runs = [('{47, 46, 97}', 9 if ck.thorough else 7), ('{47, 46, 97, 98}', 7 if ck.thorough else 5)]
    for alphabet, n in runs:
        gen += ck.emitted('PathsGen', label='all path texts up to %d characters' % n,
                          constants={'Alphabet': alphabet, 'MaxLen': str(n), 'Rels': '<- RelsDef', 'Bases': '<- BasesDef'},
                          invariants=['Idempotent', 'StaysInside', 'Spellings', 'ParentLaw', 'Emit'])
    rels, bases = [cps_of(r) for r in RELS], [cps_of(b) for b in BASES]
    cases = [{'s': g['s'], 'rels': rels, 'bases': bases} for g in gen]
    ck.compare('paths', cases, [g['obs'] for g in gen], ck.run('paths', cases),
               lambda c, e, r: 'path %r: %s' % (text_of(c['s']), difference(e, r)))
    ck.sample({'path': text_of(gen[-7]['s']), 'expected': gen[-7]['obs']})

    pieces = ['/', '//', '.', '..', 'a', 'b', 'ab', '.a', 'a.', 'a.b.c', '...', '..a', 'é', '日本', ' ', 'x y', '~', '%20', '-', '\\', 'C:']
    cases = []
    for k in range(3000 if ck.thorough else 400):
        def rand(lo, hi):
            return ''.join(ck.rng.choice(pieces) + ('/' if ck.rng.random() < 0.6 else '')
                           for _ in range(ck.rng.randint(lo, hi)))
        s = '/' + (rand(0, 10) if k % 40 else rand(100, 300))
        bs = ['/' + rand(0, 3) for _ in range(3)] + [s[:ck.rng.randint(1, len(s))], s + '/', s + '/x/..']
        cases.append({'s': cps_of(s), 'rels': [cps_of(rand(0, 5)) for _ in range(4)] + [cps_of('../' * ck.rng.randint(0, 6 if k % 40 else 250) + 'z')],
                      'bases': [cps_of(b) for b in bs]})
    records, which = [], []
    for c, r in zip(cases, ck.run('paths', cases)):
        if 'ok' in r:
            records.append(dict(c, got=r['ok']))
            which.append(c)
        else:
            ck.violation('path %r: %s' % (text_of(c['s']), r), {'part': 'random', 'case': c, 'got': r})
    for b in ck.validate('PathsCases', records):
        c = which[b['bad'] - 1]
        ck.violation('path %r: %s' % (text_of(c['s']), difference(b['expected'], {'ok': records[b['bad'] - 1]['got']})),
                     {'part': 'random', 'case': c, 'got': records[b['bad'] - 1]['got'], 'expected': b['expected']})


def difference(e, r):
    if 'ok' not in r:
        return str(r)
    return '; '.join('%s: expected %s, got %s' % (k, e[k], r['ok'].get(k)) for k in e if e[k] != r['ok'].get(k))[:500]
