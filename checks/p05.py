"""P05: the server's copy of a document equals the client's after any edits (spec DocSync)."""
from urllib.parse import quote
from lib.core import cps_of, runs_of, text_of
from lib.lsp import *
from lib.sched import pos

PIECES = ['', 'a', '\n', '\r\n', '\U0001f600', '\u00e9', '\u65e5', 'script {', '\n\n', 'a\nb', '}\n', '\u2028', '\r', '  \t', 'x' * 9,
          '\r\n\r\n', '\0', '\ufeff', '\x7f', ' ']


def library(ck):
    runs = [('StartsDef', 'TextsDef', 2, False), ('StartsCr', 'TextsCr', 2, False), ('StartsPast', 'TextsPast', 1, True), ('StartsPastFew', 'TextsPastFew', 2, True)]
    if ck.thorough:
        runs += [('StartsFew', 'TextsDef', 3, False), ('StartsPast', 'TextsPastFew', 2, True)]
    for starts, texts, n, past in runs:
        hists = ck.emitted('DocSyncGen', spec='GSpec', label='all sequences of %d changes (%s%s)' % (n, starts, ', positions past the end' * past),
                           constants={'Docs': '{}', 'Starts': '<- ' + starts, 'Texts': '<- ' + texts, 'MaxEdits': str(n), 'Past': str(past).upper()},
                           invariants=['Law', 'Emit'] if n < 3 else ['Emit'])
        cases, expected = [], []
        for k, h in enumerate(hists):
            u, edits = h[0]['utf8'], [{'range': e['range'], 'text': e['text']} for e in h[1:]]
            if k % 2:    # one notification, or one per change
                cases.append({'s': h[0]['s'], 'utf8': u, 'batches': [edits]})
                expected.append([h[-1]['after']])
            else:
                cases.append({'s': h[0]['s'], 'utf8': u, 'batches': [[e] for e in edits]})
                expected.append([e['after'] for e in h[1:]])
            if n < 3:   # the other one
                cases.append({'s': h[0]['s'], 'utf8': u, 'batches': [[e] for e in edits] if k % 2 else [edits]})
                expected.append([e['after'] for e in h[1:]] if k % 2 else [h[-1]['after']])
        ck.compare('changes', cases, expected, ck.run('edits', cases),
                   lambda c, e, r: '%r changed by %s%s: expected %s, got %s' % (text_of(c['s']), c['batches'], ', in bytes' * c['utf8'], e, str(r)[:200]))
        ck.sample({'case': cases[100], 'expected': expected[100]})


def place(rng, text, i, utf8):
    """A position that means index i or so, sometimes one past the end of the text, and what it means."""
    if text[i - 1:i + 1] == '\r\n' and i:
        i -= 1
    line, col = pos(text, i, utf8)
    if i == len(text) and rng.random() < .2:
        return rng.choice([(line, col + rng.choice([1, 2, 17, 65536, 2147000000])),
                           (line + rng.choice([1, 1, 2, 100, 2147483000]), rng.choice([0, 0, 1, 99]))]), i
    return (line, col), i


def past_line(rng, text, utf8):
    """A change with positions past the end of lines (the specification allows several results), and one of the whole text."""
    ends = [k for k in range(len(text) + 1) if text[k:k + 1] in ('', '\n')]
    (a, b), (c, d) = sorted((lambda p: (p[0], p[1] + rng.choice([0, 1, 1, 2, 17, 65536, 2147000000])))(pos(text, rng.choice(ends), utf8)) for _ in 'pq')
    new = ''.join(rng.choice(PIECES) for _ in range(3))
    return [{'range': [a, b, c, d], 'text': cps_of(rng.choice(['', 'x', '\n'])), 'utf8': utf8}], [{'range': [], 'text': cps_of(new), 'utf8': utf8}], new


def random_edits(rng, text, n, utf8):
    """Some ranged or whole changes of the text, the text after them."""
    res = []
    for _ in range(n):
        new = ''.join(rng.choice(PIECES) for _ in range(rng.randint(0, 3)))
        if rng.random() < .12:
            res.append({'range': [], 'text': cps_of(new), 'utf8': utf8})
            text = new
            continue
        i, j = sorted((rng.randint(0, len(text)), rng.randint(0, len(text))))
        if rng.random() < .4 and len(text) > 6:
            j = min(len(text), i + rng.randint(0, 3))
        (p, i), (q, j) = sorted([place(rng, text, i, utf8), place(rng, text, j, utf8)])
        res.append({'range': [*p, *q], 'text': cps_of(new), 'utf8': utf8})
        text = text[:i] + new + text[j:]
    return res, text


def as_message(e):
    return edit(*e['range'], text_of(e['text'])) if e['range'] else full(text_of(e['text']))


def server(ck, n, length):
    """Random histories of the real server, with what it holds after every message."""
    rng = ck.rng
    names = ['a', 'b', 'c']
    # documents are told apart by their path, however strange
    paths = ['/w/a.move', '/w/d\u00e9 j\u00e0/\u65e5.move', '/w/A.move', '/w', '/x y/%41.move', '/w/a.move/b.move', '/w/...', '/z']
    cases, events, used = [], [], []
    for _ in range(n):
        path = dict(zip(names, rng.sample(paths, 3)))
        u = lambda d: 'file://' + quote(path[d])
        text, opened, steps, evs, v, utf8 = {}, set(), [], [], 0, rng.random() < .5
        for _ in range(length):
            v += 1
            d = rng.choice(names)
            x = rng.random()
            if x < .12:
                f = rng.choice(['untitled:a.move', 'http://w/a.move', 'inmemory:///w/a.move', 'file://host/w/a.move', 'git:/w/a.move?x'])
                m = rng.choice([did_open(f, v, 'script {'), did_change(f, v, [full('x')]), did_change(f, v, [edit(0, 0, 9, 9, 'x')]),
                                did_close(f), note('textDocument/didSave', {'textDocument': {'uri': u(d)}, 'text': 'zz'}),
                                note('textDocument/didChange', {'textDocument': {'uri': u(d)}}),
                                note('workspace/didChangeWatchedFiles', {'changes': [{'uri': u(d), 'type': 3}]})])
                evs.append({'ev': 'foreign', 'd': d, 'text': [], 'edits': []})
            elif x < .2:
                m = did_close(u(d))
                opened.discard(d)
                evs.append({'ev': 'close', 'd': d, 'text': [], 'edits': []})
            elif x < .35 or (d not in opened and x < .9):
                t = ''.join(rng.choice(PIECES) for _ in range(rng.randint(0, 8)))
                m = did_open(u(d), v, t)
                text[d] = t
                opened.add(d)
                evs.append({'ev': 'open', 'd': d, 'text': cps_of(t), 'edits': []})
            else:
                if rng.random() < .1:
                    past, es, after = past_line(rng, text.get(d, ''), utf8)
                    steps.append({'do': 'send', 'msgs': [did_change(u(d), v, [as_message(e) for e in past])]})
                    evs.append({'ev': 'change', 'd': d, 'text': [], 'edits': past})
                else:
                    es, after = random_edits(rng, text.get(d, ''), rng.choice([1, 1, 1, 2, 3, 5, 0] + [70] * (rng.random() < .1)), utf8)
                if d in opened:
                    text[d] = after
                m = did_change(u(d), v, [as_message(e) for e in es])
                evs.append({'ev': 'change', 'd': d, 'text': [], 'edits': es})
            steps.append({'do': 'send', 'msgs': [m]})
            if rng.random() < .3:
                steps.append({'do': 'settle'})
                evs.append(None)
        cases.append({'steps': steps, 'state': True, 'caps': {'offsetEncoding': ['utf-8']} if utf8 else {}})
        events.append(evs)
        used.append(path)
    traces, which = [], []
    for c, evs, path, r in zip(cases, events, used, ck.run('server', cases, timeout=90)):
        if 'ok' not in r or r['ok']['stuck'] or r['ok']['panics']:
            ck.violation('the server failed: %s' % str(r)[-400:], {'part': 'server', 'case': c, 'got': r})
            continue
        states = {}
        for t in r['ok']['turns']:
            states[t['step']] = t['state']
        trace, last = [], states[0]
        for k, e in enumerate(evs):
            last = states.get(k + 1, last)
            if e is None:
                e = {'ev': 'foreign', 'd': 'a', 'text': [], 'edits': []}   # finishing tasks changes nothing
            files = {f['path']: f for f in last['files']}
            held, opened = {}, []
            for d in names:
                f = files.get(path[d])
                held[d] = [cps_of(f['text'])] if f else []
                if f and f['open']:
                    opened.append(d)
            # nothing else is held
            extra = [p for p in files if p not in path.values()]
            trace.append(dict(e, held=held, open=opened + extra))
        traces.append(trace)
        which.append(c)
    for i, _ in ck.validate_traces('DocSyncTrace', traces, spec='TSpec', constants={'Docs': '{"a", "b", "c"}'},
                                   label='judge what the server holds', invariants=['Accept']):
        ck.violation('the server does not hold what the editor sent', {'part': 'server', 'case': which[i], 'got': traces[i]})


def random_changes(ck):
    # long random sequences of changes, in one or several notifications
    rng, cases, traces = ck.rng, [], []
    for _ in range(1500 if ck.thorough else 300):
        t = s = ''.join(rng.choice(PIECES) for _ in range(rng.randint(0, 12)))
        batches, utf8 = [], rng.random() < .5
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .15:
                past, es, s = past_line(rng, s, utf8)
                batches.append(past)
            else:
                es, s = random_edits(rng, s, rng.randint(1, 6), utf8)
            batches.append(es)
        cases.append({'s': cps_of(t), 'utf8': utf8, 'batches': batches})
    which = []
    for c, r in zip(cases, ck.run('edits', cases)):
        if 'ok' not in r:
            ck.violation('changes failed on %r: %s' % (text_of(c['s']), r), {'part': 'random', 'case': c, 'got': r})
            continue
        tr = [{'ev': 'open', 'd': 'a', 'text': c['s'], 'edits': [], 'held': {'a': [c['s']]}, 'open': ['a']}]
        for b, after in zip(c['batches'], r['ok']):
            tr.append({'ev': 'change', 'd': 'a', 'text': [], 'edits': b, 'held': {'a': [after]}, 'open': ['a']})
        traces.append(tr)
        which.append(c)
    for i, _ in ck.validate_traces('DocSyncTrace', traces, spec='TSpec', constants={'Docs': '{"a"}'},
                                   label='judge random changes', invariants=['Accept']):
        ck.violation('changes of %r do not give the text of the specification' % text_of(which[i]['s']),
                     {'part': 'random', 'case': which[i], 'got': traces[i]})


def long_texts(ck, n):
    """Changes of texts with long lines and many of them."""
    ck.model('EditRunsGen', label='runs of characters are changed like characters', invariants=['Agrees'],
             constants={'Alphabet': '{97, 10, 128512}', 'MaxRuns': '4', 'MaxRun': '2'})
    rng, cases, meta = ck.rng, [], []
    size = lambda: rng.choice([1, 1, 2, 3, 80, 255, 256, 257, 4096, 65535, 65536, 70000])
    some = lambda k: runs_of([c for _ in range(k) for c, m in [(rng.choice([10, 10, 97, 98, 233, 26085, 128512]), size())] for _ in range(m)])
    for _ in range(n):
        start = t = some(rng.randint(1, 7))
        edits, utf8 = [], rng.random() < .5
        for _ in range(rng.randint(1, 3)):
            places = []
            for _ in range(2):
                i = rng.randrange(len(t)) if t else 0
                places.append([i + 1, rng.choice([0, t[i][1], rng.randint(0, t[i][1])]) if t else 0])
            p, q = sorted(places)
            new = some(rng.randint(0, 2))
            line = lambda p: sum(min(m, p[1]) if k + 1 == p[0] else m for k, (c, m) in enumerate(t[:p[0]]) if c == 10)
            def column(p):
                col = 0
                for k, (c, m) in enumerate(t[:p[0]]):
                    m = min(m, p[1]) if k + 1 == p[0] else m
                    col = (0 if m else col) if c == 10 else col + m * (len(chr(c).encode()) if utf8 else 2 if c > 0xffff else 1)
                return col
            edits.append({'p': p, 'q': q, 'new': new, 'range': [line(p), column(p), line(q), column(q)]})
            chars = [c for c, m in t[:p[0] - 1] for _ in range(m)] + ([t[p[0] - 1][0]] * p[1] if t else [])
            chars += [c for c, m in new for _ in range(m)]
            chars += ([t[q[0] - 1][0]] * (t[q[0] - 1][1] - q[1]) if t else []) + [c for c, m in t[q[0]:] for _ in range(m)]
            t = runs_of(chars)
        each = rng.random() < .5
        sent = [{'range': e['range'], 'text': [c for c, m in e['new'] for _ in range(m)]} for e in edits]
        cases.append({'s': [c for c, m in start for _ in range(m)], 'utf8': utf8, 'batches': [[e] for e in sent] if each else [sent]})
        meta.append({'runs': start, 'utf8': utf8, 'edits': edits, 'each': each})
    records = []
    for m, r in zip(meta, ck.run('edits', cases)):
        if 'ok' not in r:
            ck.violation('changes failed on a text of %s: %s' % (m['runs'], str(r)[:300]), {'part': 'long', 'case': m, 'got': str(r)[:300]})
            continue
        records.append(dict(m, after=[runs_of(a) for a in r['ok']]))
    for b in ck.validate('EditRunsCases', records, label='judge changes of long texts'):
        m = records[b['bad'] - 1]
        ck.violation('changes %s of a text of %s do not give the text of the specification' % (m['edits'], m['runs']), {'part': 'long', 'case': m, 'got': m['after']})


def check(ck):
    if ck.can('edits'):
        library(ck)
        random_changes(ck)
        long_texts(ck, 400 if ck.thorough else 80)
    server(ck, 600 if ck.thorough else 120, 25)
    # few, but long
    server(ck, 25 if ck.thorough else 6, 250)
