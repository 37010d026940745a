"""P13: tokens are the longest words of the language's classes (spec Lexer)."""
from lib.core import cps_of, text_of
from lib.moves import any_text

FAMILIES = [('Ops1', 5, 6), ('Ops2', 3, 3), ('Numbers', 4, 5), ('Strings', 5, 6), ('Amps', 5, 6), ('Comments', 5, 7), ('Words', 3, 3), ('Ascii', 2, 2), ('Suffixes', 3, 3), ('Foreign', 2, 3)]
# (how many pieces the laws of the specification itself are checked for)
LAWS = {'Ops1': 3, 'Ops2': 2, 'Numbers': 3, 'Strings': 4, 'Amps': 3, 'Comments': 4, 'Words': 2, 'Ascii': 1, 'Suffixes': 2, 'Foreign': 1}

POOLS = ['xb"\\a\n\r \u00e9', '0123x89afAFgu_8641 ', '&mut |=!<>:./', '//\na\r \t\u00e9"', 'abz_AZ09 xb"', '\0\x7f\u00a0\u2028\ufeff\U0001f600\u65e5 \n']


def check(ck):
    for f, quick, deep in FAMILIES:
        n = deep if ck.thorough else quick
        const = {'Pieces': '<- ' + f}
        ck.model('LexerGen', label='laws of the specification: %s' % f, constants=dict(const, MaxPieces=str(LAWS[f] + ck.thorough)), invariants=['Law'])
        gen = ck.emitted('LexerGen', label='all texts of %d pieces: %s' % (n, f), constants=dict(const, MaxPieces=str(n)), invariants=['Emit'])
        cases = [{'s': g['s']} for g in gen]

        def same(e, r):
            return len(e) == len(r) and all(a[1] == b[1] and (a[0] == b[0] or (a[0], b[0]) == ('INTEGER_NUMBER', 'DIEM_ADDRESS')) for a, b in zip(e, r))
        bad = 0
        for c, g, r in zip(cases, gen, ck.run('leaves', cases)):
            if 'ok' in r and same(g['tokens'], r['ok']):
                ck.replayed += 1
            else:
                bad += 1
                ck.violation('tokens of %r: expected %s, got %s' % (text_of(c['s']), g['tokens'], str(r)[:300]),
                             {'part': f, 'case': c, 'expected': g['tokens'], 'got': r})
        ck.part('replay ' + f, cases=len(cases), differing=bad)
        ck.sample({'text': gen[-1]['s'], 'tokens': gen[-1]['tokens']})
    rng, texts = ck.rng, []
    for _ in range(8000 if ck.thorough else 1600):
        if rng.random() < .5:
            texts.append(any_text(rng))
        else:
            pool = rng.choice(POOLS) + (rng.choice(POOLS) if rng.random() < .3 else '')
            texts.append(''.join(rng.choice(pool) for _ in range(rng.choice([6, 12, 40]))))
    # long tokens, and many
    for p in ['a', '_9', '7', '0x' + 'f' * 999, '//' + 'c ' * 500, 'x"' + '\\"' * 400, 'b"' + '0' * 700 + '"', ' \n', '==', '&mut', '\u00e9', '"', 'x"a\r\n', '\U0001f600']:
        texts += [p * (1 if len(p) > 50 else n) + e for n in (255, 256, 257, 500) for e in ('', 'u8', '"', '\n', '\u00e9')]
    records, which = [], []
    for t, r in zip(texts, ck.run('leaves', [{'s': cps_of(t)} for t in texts])):
        if 'ok' not in r:
            ck.violation('reading %r failed: %s' % (t[:300], r), {'part': 'random', 'case': t, 'got': r})
            continue
        records.append({'s': cps_of(t), 'leaves': r['ok']})
        which.append(t)
    for b in ck.validate('LexerCases', records):
        i = b['bad'] - 1
        ck.violation('tokens of %r: %s' % (which[i][:300], records[i]['leaves']), {'part': 'random', 'case': which[i], 'got': records[i]['leaves']})
