"""P24: a document is known by its location, however its URI is written (spec Uri)."""
import json
from urllib.parse import quote
from lib.core import cps_of, text_of
from lib.lsp import *

CONSTANTS = {'FileScheme': '<- FileSchemeDef', 'Localhost': '<- LocalhostDef'}
PER_SERVER = 60


def text(line):
    return '\n' * line + '('


def lines(p):
    """The line of the only error, as a document with the text text(line) has."""
    ds = p['diagnostics']
    return ds[0]['range']['start']['line'] if len(ds) == 1 else -1 - len(ds)


def generated(ck):
    rng = ck.rng
    gen = {}
    for heads, pieces, n in [('HeadsDef', 'PiecesDef', 3 if ck.thorough else 2), ('OneHead', 'PiecesDef', 4 if ck.thorough else 3), ('OneHead', 'FewPieces', 6 if ck.thorough else 5)]:
        for g in ck.emitted('UriGen', label='all URIs of %s and up to %d of %s' % (heads, n, pieces), view='View',
                            constants=dict(CONSTANTS, Heads='<- ' + heads, Pieces='<- ' + pieces, Tails='<- TailsDef', MaxPieces=str(n)),
                            invariants=['Law', 'SameDoc', 'Fragment', 'Emit']):
            if g['scope']:
                gen[text_of(g['u'])] = g['doc']
    uris = list(gen)
    rng.shuffle(uris)
    cases, expected = [], []
    for k in range(0, len(uris), PER_SERVER):
        steps, want = [], {}
        for j, u in enumerate(uris[k:k + PER_SERVER]):
            d = json.dumps(gen[u])
            if d in want and rng.random() < .6:
                m = did_change(u, j + 1, [full(text(j + 1))])
            else:
                m = did_open(u, j + 1, text(j + 1))
            if gen[u]:
                want[d] = j + 1
            steps.append({'do': 'send', 'msgs': [m]})
        cases.append({'steps': steps + [{'do': 'settle'}]})
        expected.append(want)
    records, which = [], []
    for c, want, r in zip(cases, expected, ck.run('server', cases, timeout=120)):
        if 'ok' not in r or r['ok']['stuck'] or r['ok']['panics']:
            ck.violation('the server failed: %s' % str(r)[-400:], {'part': 'generated', 'case': c, 'got': r})
            continue
        last = {}
        for turn in r['ok']['turns']:
            for p in publications(turn):
                last[p['uri']] = (p.get('version'), lines(p))
        # the last texts are all different: which document each publication is for is known
        by = {v: d for d, v in want.items()}
        got = {by.get(v): u for u, (v, line) in last.items() if v == line}
        for d in want:
            if d not in got:
                sent = [s['msgs'][0]['params']['textDocument']['uri'] for s in c['steps'] if 'msgs' in s and json.dumps(gen[s['msgs'][0]['params']['textDocument']['uri']]) == d]
                ck.violation('of the document %s with the URIs %s the newest diagnostics (version %d) are not published' % (d, sent, want[d]),
                             {'part': 'generated', 'case': c, 'got': last})
                break
        for u, (v, line) in last.items():
            if v != line or v not in by:
                ck.violation('published of %s: version %s, error in line %s; nothing was to be published' % (u, v, line), {'part': 'generated', 'case': c, 'got': last})
                break
            records.append({'u': cps_of(u), 'path': json.loads(by[v])[0]})
            which.append((c, u, by[v]))
    ck.replayed += len(uris)
    ck.part('generated', uris=len(uris), documents=len({json.dumps(d) for d in gen.values()}), servers=len(cases))
    seen, some = {}, []
    for rec, w in zip(records, which):
        k = json.dumps(rec)
        if k not in seen:
            seen[k] = w
            some.append((rec, w))
    for b in ck.validate('UriCases', [r for r, _ in some], label='judge the published URIs', constants=CONSTANTS):
        c, u, d = some[b['bad'] - 1][1]
        ck.violation('published of %s, which names %s, for the document %s' % (u, b['names'], d), {'part': 'generated', 'case': c, 'got': u})
    ck.sample({'uri': uris[7], 'names': gen[uris[7]]})


NAMES = ['a', 'A', 'b.move', 'a b', 'dé', '日本', 'a+b;c=d', '%', '%41', '[x]', '#', '?', '..a', '...', 'a.', '~', "'", '"<>', '{}', '`^', '\U0001f600', '@', '&', '!$(),*', 'é']
SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=@"


def spell(rng, path):
    """One of the many ways to write a path as a URI."""
    out = []
    for name in path:
        while rng.random() < .1:
            out.append(rng.choice(['.', '%2e', '', 'x/..', 'y z/%2E.', '%61/.%2e']))
        comp = ''
        for ch in name:
            if rng.random() < .15 or ch not in SAFE and (ord(ch) < 128 or rng.random() < .5):
                comp += ''.join(('%%%02x' if rng.random() < .5 else '%%%02X') % b for b in ch.encode())
            else:
                comp += ch
        out.append(comp)
    if rng.random() < .1:
        out.append(rng.choice(['', '.', 'a/..', '%2e']))
    s = ''.join(('\\' if rng.random() < .03 else '/') + c for c in out)
    return rng.choice(['file://'] * 6 + ['FILE://', 'file:', 'file://localhost', 'file://LocalHost']) + s + rng.choice([''] * 9 + ['#x', '?y', '?', '#/../a'])


def histories(ck, n, length):
    rng, cases, events = ck.rng, [], []
    for _ in range(n):
        paths = [tuple(rng.choice(NAMES) for _ in range(rng.randint(1, 3))) for _ in range(2 if length < 99 else 120)]
        paths.append(paths[0][:-1] + (rng.choice(NAMES),))
        paths.append(paths[0] + (rng.choice(NAMES),))
        steps, evs = [], []
        for v in range(1, length + 1):
            p = rng.choice(paths)
            u = spell(rng, p)
            if rng.random() < .08:
                u = rng.choice(['untitled:', 'git:', 'file://host', 'http://localhost', 'vscode-remote://a', 'files://', 'x-file:', 'file://127.0.0.1']) + quote('/' + '/'.join(p))
            ev = rng.choice(['open', 'open', 'change', 'change', 'change', 'close'])
            line = v
            m = did_open(u, v, text(line)) if ev == 'open' else did_change(u, v, [full(text(line))]) if ev == 'change' else did_close(u)
            steps += [{'do': 'send', 'msgs': [m]}, {'do': 'settle'}]
            evs.append({'ev': ev, 'uri': cps_of(u), 'version': v, 'line': line})
        cases.append({'steps': steps})
        events.append(evs)
    traces, which = [], []
    for c, evs, r in zip(cases, events, ck.run('server', cases, timeout=120)):
        if 'ok' not in r or r['ok']['stuck'] or r['ok']['panics']:
            ck.violation('the server failed: %s' % str(r)[-400:], {'part': 'histories', 'case': c, 'got': r})
            continue
        pubs = {}
        for turn in r['ok']['turns']:
            pubs.setdefault((max(turn['step'], 1) + 1) // 2, []).extend(publications(turn))
        traces.append([dict(e, pubs=[{'uri': cps_of(p['uri']), 'version': p.get('version', -1), 'line': lines(p)} for p in pubs.get(k + 1, [])])
                       for k, e in enumerate(evs)])
        which.append(c)
    for i, at in ck.validate_traces('UriTrace', traces, spec='TSpec', constants=CONSTANTS, label='judge histories', invariants=['Accept']):
        ck.violation('a document is not known by its location: %s' % [(e['ev'], text_of(e['uri']), [text_of(p['uri']) for p in e['pubs']]) for e in traces[i]],
                     {'part': 'histories', 'case': which[i], 'got': traces[i]})


def check(ck):
    generated(ck)
    histories(ck, 800 if ck.thorough else 150, 25)
    # few, but with many documents
    histories(ck, 20 if ck.thorough else 4, 250)
