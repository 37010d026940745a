"""P16: layout and comments never change how a program is understood (spec Layout)."""
import json, os
from lib.core import canon, cps_of, text_of, ToolError
from lib.moves import *
from checks.p15 import programs, tokens, LARGE
from checks.p23 import texts_of_ways

BASES = ['a', 'script { }', 'module M { }', 'module 0x1 :: M', 'address 0x1 { }', '; module M', 'script ; ;', 'a :: b', 'fun f ( )', '/ / /', '& mut a',
         'script x"', '< <=', 'module M ;', 'address { }', '"', '= =', ': : a', '. .', '@ 0x1', 'script { fun', '0 x', 'module { struct S']


def check(ck):
    rng = ck.rng
    # every layout of short programs
    bases = [b.split(' ') for b in BASES if len(b.split(' ')) <= (5 if ck.thorough else 4)]
    path = os.path.join(ck.work, 'bases.ndjson')
    with open(path, 'w') as f:
        f.writelines(json.dumps([cps_of(w) for w in b]) + '\n' for b in bases)
    gen = ck.emitted('LayoutGen', label='all layouts of short programs', constants={'Gaps': '<- SomeGaps'}, invariants=['Emit'], env={'CASES': path})
    plain = [r.get('ok') for r in ck.run('skeleton', [{'s': cps_of('\n'.join(b))} for b in bases])]
    cases = [{'s': g['s']} for g in gen]
    ck.compare('all layouts of short programs', cases, [plain[g['b'] - 1] for g in gen], ck.run('skeleton', cases),
               lambda c, e, r: 'the layout of %r matters: %s instead of %s' % (text_of(c['s']), str(r)[:300], str(e)[:300]))
    # random layouts of programs of the grammar: the tree is the prescribed one
    for label, gen in programs(ck, [], [(g, s, o, n // 2) for g, s, o, n in LARGE]):
        trees = [g['tree'] for g in gen]
        cases = [{'s': cps_of(relayout(rng, tokens(t)))} for t in trees]
        ck.compare('laid out ' + label, cases, [{'tree': t, 'errors': []} for t in trees], ck.run('skeleton', cases),
                   lambda c, e, r: 'in this layout, %r is another program: %s' % (text_of(c['s'])[:300], str(r)[:200]))
    # broken programs, in several layouts each
    lists = []
    for b in BEGINNINGS:
        for _ in range(12 if ck.thorough else 4):
            lists.append(split(b) + [rng.choice(PUNCT + WORDS + LITERALS + STRANGE[:4]) for _ in range(rng.randint(0, 4))])
    for _ in range(6000 if ck.thorough else 1200):
        lists.append(broken_tokens(rng, rng.choice([5, 15, 30])))
    ways = texts_of_ways(ck)
    lists += ways if ck.thorough else rng.sample(ways, 1500)
    variants, base = [], []
    for k, l in enumerate(lists):
        # dense, one blank, one line each, mixed
        for gaps in ([''], [' '], ['\n'], None, None, ['// c\n'], ['// a\n', ' // b\n// c\n']):
            variants.append(relayout(rng, l, gaps))
            base.append(k)
    records = [{'variants': []} for _ in lists]
    for t, k, r in zip(variants, base, ck.run('tree', [{'s': cps_of(t)} for t in variants])):
        if 'ok' not in r:
            ck.violation('reading %r failed: %s' % (t[:300], r), {'part': 'broken', 'case': t, 'got': r})
            continue
        records[k]['variants'].append({'s': cps_of(t), 'events': r['ok']['events'], 'errors': r['ok']['errors']})
    records = [r if r['variants'] else {'variants': [{'s': [], 'events': [], 'errors': []}]} for r in records]
    ck.extra['layouts_of_broken_programs'] = len(variants)
    for b in ck.validate('LayoutCases', records, heap='10g'):
        i = b['bad'] - 1
        if b['why'] == 'tokens':
            raise ToolError('not layouts of the same tokens: %s' % [text_of(v['s']) for v in records[i]['variants']])
        ck.violation('the layout of %s matters' % lists[i], {'part': 'broken', 'case': lists[i], 'got': records[i]})
