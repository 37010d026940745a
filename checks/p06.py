"""P06: line-ending conversion removes exactly the carriage return of each CRLF (spec LineEnds)."""
from lib.core import cps_of, runs_of, text_of
from lib.lsp import *
from lib.sched import BROKEN, CLEAN, diff_edit

LINES = ['script {', 'fun main() {', '  let \U0001f600 = 1;', '}', '', '\u00e9 module', '// \u65e5\r note', 'module M { struct }', '\t(',
         'x"12', '"', 'let a = b\r', '\r', 'address 0x1 {', '\u2028fun']


def documents(ck, n):
    """Documents in one server, with all kinds of line ends: what is shown depends on the text with LF only."""
    rng, cases, finals = ck.rng, [], []
    for _ in range(n):
        steps, final, utf8 = [], {}, rng.random() < .5
        for b in range(rng.randint(1, 3)):
            lines = rng.choice(BROKEN + CLEAN).split('\n') if rng.random() < .3 else [rng.choice(LINES) for _ in range(rng.randint(1, 8))]
            for k, ends in enumerate((['\n'], ['\r\n'], ['\n', '\r\n'], ['\r\r\n', '\n'])):
                u = 'file:///w/%d-%d.move' % (b, k)
                t = lines[0] + ''.join(rng.choice(ends) + l for l in lines[1:])
                old, v = None, 0
                for s in ([rng.choice(BROKEN + CLEAN)] if rng.random() < .4 else []) + [t]:
                    v += 1
                    steps.append({'do': 'send', 'msgs': [did_open(u, v, s) if old is None else
                                                         did_change(u, v, [diff_edit(old, s, utf8)] if rng.random() < .6 else [full(s)])]})
                    old = s
                final[u] = t
            if rng.random() < .5:
                steps.append({'do': 'settle'})
        steps.append({'do': 'settle'})
        cases.append({'steps': steps, 'caps': {'offsetEncoding': ['utf-8']} if utf8 else {}})
        finals.append((final, utf8))
    texts = sorted({(t.replace('\r\n', '\n'), utf8) for f, utf8 in finals for t in f.values()})
    fresh = {k: r.get('ok') for k, r in zip(texts, ck.run('diags', [{'s': cps_of(t), 'utf8': u, 'raw': True} for t, u in texts]))}
    records, which = [], []
    for c, (final, utf8), r in zip(cases, finals, ck.run('server', cases, timeout=90)):
        if 'ok' not in r or r['ok']['stuck'] or r['ok']['panics']:
            ck.violation('the server failed: %s' % str(r)[-400:], {'part': 'documents', 'case': c, 'got': r})
            continue
        shown = {}
        for turn in r['ok']['turns']:
            for p in publications(turn):
                shown[p['uri']] = diag_key(p['diagnostics'])
        use = sorted({t.replace('\r\n', '\n') for t in final.values()})
        records.append({'docs': [{'s': cps_of(t), 'shown': str(shown.get(u))} for u, t in final.items()],
                        'fresh': [{'s': cps_of(t), 'shown': str(fresh[t, utf8])} for t in use]})
        which.append((c, final, shown))
    for b in ck.validate('LineEndsDocs', records, label='judge what is shown of documents'):
        i = b['bad'] - 1
        ck.violation('what is shown depends on the kind of line ends: %s' % str(which[i][1])[:300],
                     {'part': 'documents', 'case': which[i][0], 'got': which[i][2]})


def conversions(ck):
    n = '8' if ck.thorough else '7'
    gen = ck.emitted('LineEndsGen', label='all texts of up to %s characters' % n,
                     constants={'Alphabet': '{97, 13, 10, 128512}', 'MaxLen': n}, invariants=['Law1', 'Law2', 'Emit'])
    cases = [{'s': g['s']} for g in gen]
    ck.compare('conversions', cases, [{'text': g['text'], 'dos': g['dos']} for g in gen], ck.run('lineends', cases),
               lambda c, e, r: 'text %r: %s' % (text_of(c['s']), str(r)[:200]))
    ck.sample({'text': gen[4000]['s'], 'expected': gen[4000]['text']})
    cases = []
    for _ in range(2000 if ck.thorough else 400):
        pool = ck.rng.sample([97, 10, 13, 233, 26085, 128512, 9, 0x2028, 0x85], ck.rng.randint(1, 5))
        pool += [13, 10][:ck.rng.randint(0, 2)]
        s = []
        for _ in range(ck.rng.choice([5, 40, 200])):
            s += [13, 10] if ck.rng.random() < 0.2 else [ck.rng.choice(pool)]
        cases.append({'s': s})
    records, which = [], []
    for c, r in zip(cases, ck.run('lineends', cases)):
        if 'ok' not in r:
            ck.violation('conversion failed on %r: %s' % (text_of(c['s']), r), {'part': 'random', 'case': c, 'got': r})
            continue
        records.append({'s': c['s'], 'text': r['ok']['text'], 'dos': r['ok']['dos']})
        which.append(c)
    for b in ck.validate('LineEndsCases', records):
        i = b['bad'] - 1
        ck.violation('conversion of %r is wrong' % text_of(which[i]['s']), {'part': 'random', 'case': which[i], 'got': records[i]})


def long_texts(ck, n):
    """Texts of any length, with line ends of both kinds in few places."""
    ck.model('LineEndRunsGen', label='runs of characters are converted like characters', invariants=['Agrees'],
             constants={'Alphabet': '{97, 13, 10, 128512}', 'MaxRuns': '5', 'MaxRun': '3'})
    rng, cases = ck.rng, []
    for _ in range(n):
        runs = []
        for _ in range(rng.choice([1, 3, 8, 60])):
            plain = [rng.choice([97, 32, 233, 26085, 128512]), rng.choice([1, 80, 1000, 4095, 4096, 8191, 8192, 20000]) if len(runs) < 12 else 1]
            runs += [plain] + rng.choice([[[10, 1]], [[10, 1]], [[10, rng.choice([1, 500, 5000])]], [[13, 1], [10, 1]], [[13, rng.choice([1, 2, 4096])], [10, rng.choice([1, 2])]],
                                          [[13, 1]], [[13, 1], [10, 1]] * rng.choice([1, 2, 100])])
        cases.append({'s': [c for c, m in runs for _ in range(m)]})
    for size in [1 << 20, 1 << 21] + [1 << 22] * ck.thorough:   # whose line ends come late
        cases.append({'s': [97] * (size - rng.randint(0, 3)) + [13, 10] * rng.randint(1, 3) + [98, 13, 13, 10]})
    records, which = [], []
    for c, r in zip(cases, ck.run('lineends', cases)):
        if 'ok' not in r:
            ck.violation('conversion failed on a text of %s: %s' % (runs_of(c['s'])[:20], str(r)[:300]), {'part': 'long', 'case': runs_of(c['s']), 'got': str(r)[:300]})
            continue
        records.append({'runs': runs_of(c['s']), 'text': runs_of(r['ok']['text']), 'dos': r['ok']['dos']})
        which.append(c)
    for b in ck.validate('LineEndRunsCases', records, label='judge long texts'):
        i = b['bad'] - 1
        ck.violation('conversion of a text of %s is wrong' % records[i]['runs'][:20], {'part': 'long', 'case': records[i]['runs'], 'got': records[i]})


def check(ck):
    if ck.can('lineends'):
        conversions(ck)
        long_texts(ck, 400 if ck.thorough else 80)
    documents(ck, 500 if ck.thorough else 100)
