"""P18: diagnostics are exactly the syntax errors, at their places (spec Diagnostics)."""
from lib.core import cps_of, runs_of
from lib.lsp import *
from lib.moves import any_text, broken
from checks.p23 import texts_of_ways, write

# pieces that stand for themselves, with an error each (or some, or none)
PIECES = ['module M{fun f(){+;}}\n', 'script{;}', 'module M { struct S { a } }\n\n', 'script { fun main() { let ; } } // \u00e9\n',
          'module \u00e9 {}\n', 'address 0x1 { fun }\n', 'module M{}', 'script { fun \U0001f600() {} }\n', 'script { fun f( }\n',
          'module M { fun f() { a b; ( ] ) } }\n', '\n', '// \U0001f600\n', 'address @ {}\n', 'module A { struct ; struct S < {} fun f() }']


def texts(ck):
    rng = ck.rng
    res = ['']
    res += [any_text(rng) for _ in range(6000 if ck.thorough else 1200)]
    for n in [1, 63, 64, 65, 127, 128, 129, 130, 200, 400]:
        for p in ['script{;}\n', 'script{;}', 'module\n', ';script;', 'script { fun \U0001f600() {} } ', '\u00e9 script\n']:
            res.append(p * n)
        res.append('script { %s}' % ('fun f() { a. }\n' * n))
        res.append('script{fun m(){%s}}' % ('a(;' * n))
        res.append(''.join(rng.choice(PIECES) for _ in range(n)))
    res += [';' * n for n in [256, 257, 511, 513, 1025]] + [';\n' * 600]
    return res


def long_texts(ck):
    rng, res = ck.rng, []
    for size in [66000, 140000, 1100000] + [5000000] * ck.thorough:
        fill = [rng.choice(['\n', ' ', '// ' + rng.choice('x\u00e9\U0001f600') * rng.choice([80, 3000]) + '\n']) for _ in range(rng.randint(2, 4))]
        res.append(''.join(f * (size // len(fill) // len(f) + 1) + rng.choice(PIECES) for f in fill[:3]))
        res.append(rng.choice(PIECES) + '\n' * size + rng.choice(PIECES) + '// ' + rng.choice('x\u65e5\U0001f600') * size + '\n' + rng.choice(PIECES))
    return [t for t in res if len(runs_of(cps_of(t))) < 2000]


def place(runs, off):
    for k, (c, m) in enumerate(runs):
        b = len(chr(c).encode())
        if off < b * m:
            return [k + 1, off // b]
        off -= b * m
    return [len(runs) + 1, 0]


def check(ck):
    ck.model('DiagnosticsGen', label='laws of the specification on all small texts with two errors',
             constants={'Alphabet': '{97, 10, 233, 128512}', 'MaxLen': '5' if ck.thorough else '4'},
             invariants=['WalkIsTable', 'Faithful'])
    rng = ck.rng
    ts = texts(ck) + long_texts(ck)
    ways = texts_of_ways(ck)
    ts += [write(rng, ws) for ws in (ways if ck.thorough else rng.sample(ways, 2500))]
    lib = ck.run('errors', [{'s': cps_of(t)} for t in ts])
    # the same texts in servers, ten documents each
    cases, groups = [], []
    for i in range(0, len(ts), 10):
        utf8 = rng.random() < .5
        u = lambda k: 'file:///w/%d.move' % k
        steps = [{'do': 'send', 'msgs': [did_open(u(k), 1, t)]} for k, t in enumerate(ts[i:i + 10])]
        cases.append({'steps': steps + [{'do': 'settle'}], 'caps': {'offsetEncoding': ['utf-8']} if utf8 else {}})
        groups.append(utf8)
    records, which, most = [], [], 0
    for g, (c, utf8, r) in enumerate(zip(cases, groups, ck.run('server', cases, timeout=120))):
        if 'ok' not in r or r['ok']['stuck'] or r['ok']['panics']:
            ck.violation('the server failed: %s' % str(r)[-400:], {'part': 'published', 'case': c, 'got': str(r)[-2000:]})
            continue
        last = {}
        for turn in r['ok']['turns']:
            for p in publications(turn):
                last[p['uri']] = p['diagnostics']
        for k in range(len(c['steps']) - 1):
            t, l = ts[10 * g + k], lib[10 * g + k]
            if 'ok' not in l:
                ck.violation('the library failed on %r: %s' % (t[:300], l), {'part': 'library', 'case': t, 'got': l})
                continue
            if '\r\n' in t:
                continue    # analysed as another text
            shown = last.get(u(k))
            if shown is None:
                ck.violation('nothing was published for %r' % t[:300], {'part': 'published', 'case': t})
                continue
            most = max(most, len(l['ok']['errors']))
            at = lambda p: [p['line'], p['character']]
            text = {'s': cps_of(t)}
            if len(t) > 30000:
                runs = runs_of(cps_of(t))
                offs = {o for e in l['ok']['errors'] for o in (e['from'], e['to'])}
                text = {'runs': runs, 'at': [place(runs, o) for o in sorted(offs)]}
            records.append({**text, 'utf8': utf8, 'errors': l['ok']['errors'], 'diags': l['ok']['diags'],
                            'shown': [{'msg': d['message'], 'start': at(d['range']['start']), 'end': at(d['range']['end']),
                                       'severity': d.get('severity'), 'code': d.get('code'), 'source': d.get('source'),
                                       'tags': d.get('tags') or [], 'related': len(d.get('relatedInformation') or [])} for d in shown]})
            which.append(t)
    ck.extra['most_errors_of_one_text'] = most
    for b in ck.validate('DiagnosticsCases', records, label='judge errors, diagnostics and publications'):
        i = b['bad'] - 1
        ck.violation('the diagnostics of %r are not its errors' % which[i][:300], {'part': 'published', 'case': which[i], 'got': records[i]})
    # errors of independent pieces
    alone = {p: r['ok']['errors'] for p, r in zip(PIECES, ck.run('errors', [{'s': cps_of(p)} for p in PIECES]))}
    ck.sample({'piece': PIECES[3], 'errors': alone[PIECES[3]]})
    lists = [[rng.choice(PIECES) for _ in range(rng.randint(1, 12))] for _ in range(2000 if ck.thorough else 400)]
    # long ones, some with long comments in between
    for k in range(24 if ck.thorough else 6):
        fill = ['//' + '\u00e9' * rng.choice([30, 300, 3000]) + '\n', '\n' * rng.choice([7, 700, 70000])]
        lists.append([rng.choice(PIECES + fill * (k % 2)) for _ in range(rng.choice([200, 500, 900]))])
    for p in {p for l in lists for p in l if p not in alone}:
        alone[p] = []   # blanks and comments
    records = []
    for l, r in zip(lists, ck.run('errors', [{'s': cps_of(''.join(l))} for l in lists])):
        if 'ok' not in r:
            ck.violation('the library failed on %r: %s' % (''.join(l)[:300], r), {'part': 'library', 'case': ''.join(l), 'got': r})
            r = {'ok': {'errors': []}}
        records.append({'parts': [{'n': len(p.encode()), 'errors': alone[p]} for p in l], 'whole': r['ok']['errors']})
    for b in ck.validate('DiagnosticsCases', records, label='judge errors of independent pieces'):
        l = lists[b['bad'] - 1]
        ck.violation('errors of %r are not those of its pieces' % ''.join(l)[:300], {'part': 'pieces', 'case': l, 'got': records[b['bad'] - 1]})
