"""P03: every request is answered exactly once, with the right outcome (spec Requests)."""
import json
from lib.core import canon
from lib.lsp import *

CAPS = {'textDocument': {'synchronization': {'dynamicRegistration': True, 'didSave': True}}}
METHODS = ['textDocument/hover', 'initialize', 'exit', 'Shutdown', 'shutdown ', 'workspace/symbol', '$/foo', '', 'x' * 300,
           'textDocument/didOpen', '$/cancelRequest', 'rust-analyzer/analyzerStatus', 'window/workDoneProgress/create']
NOTES = [note('initialized', {}), note('$/progress', {}), note('shutdown', None), note('textDocument/didOpen', {'x': []}),
         note('textDocument/didChange', None), note('$/setTrace', {'value': 'off'}), note('', {}), note('textDocument/hover', {}),
         note('workspace/didChangeWatchedFiles', {'changes': []}), note('textDocument/didClose', [1, 2]),
         note('window/workDoneProgress/cancel', {'token': 3}), note('$/cancelRequest', {}), note('$/cancelRequest', {'id': None}),
         did_close('file:///nowhere'), did_change('file:///nowhere', 3, [full('x')])]


def outcome(m):
    """The outcome of a response as the specification names it."""
    if 'error' in m:
        return m['error'].get('code', 'no code') if 'result' not in m else 'both'
    return 0 if 'result' in m and m['result'] is None else 'another result'


def answers(turn):
    return [m for m in turn['messages'] if 'id' in m and 'method' not in m]


def ask(id_, method, params):
    """The message, and the line for the specification."""
    m = request(id_, method, params)
    return m, {'ev': 'ask', 'id': canon(id_), 'method': method, 'params': 'null' if params is None else 'other', 'outcome': 0}


def plain(m):
    return m, {'ev': 'note', 'id': '', 'method': '', 'params': '', 'outcome': 0}


def check(ck):
    ck.model('RequestsGen', spec='ASpec', label='the specification, with answers at any time',
             constants={'Depth': '0', 'Kinds': '{}'}, invariants=['Once', 'OnlyAsked', 'Right'], properties=['Answered'])
    depth = 5 if ck.thorough else 4
    hists = ck.emitted('RequestsGen', spec='GSpec', label='all conversations of %d messages' % depth,
                       constants={'Depth': str(depth), 'Kinds': '<- KindsDef'}, invariants=['Emit'])
    if not ck.thorough and len(hists) > 5000:
        hists = ck.rng.sample(hists, 5000)
    cases, expected = [], []
    for n, h in enumerate(hists):
        steps, due = [], []
        for s in h:
            i, k = s['id'], s['kind']
            id_ = i if (n + i) % 2 else 'r%d' % i
            m = {'shutdown': request(id_, 'shutdown'),
                 'shutdown-params': request(id_, 'shutdown', [{}, [1], 'x', 0, {'a': 1}][(n + i) % 5]),
                 'unknown': request(id_, METHODS[(n + i) % len(METHODS)], [None, {}, [], 7][n % 4]),
                 'initialize': request(id_, 'initialize', {'capabilities': {}}),
                 'cancel-old': note('$/cancelRequest', {'id': i - 1 if (n + i - 1) % 2 else 'r%d' % (i - 1)}),
                 'cancel-next': note('$/cancelRequest', {'id': i + 1 if (n + i + 1) % 2 else 'r%d' % (i + 1)}),
                 'note': NOTES[(n + i) % len(NOTES)],
                 'bad-note': note('textDocument/didOpen', {'textDocument': 3}),
                 'open': did_open('file:///w/a.move', i, 'script {' + '\n' * i),
                 'reply': {'id': 0, 'result': None}}[k]
            steps.append({'do': 'send', 'msgs': [m]})
            due += [[canon(id_), o] for o in s['due']]
        cases.append({'caps': CAPS, 'steps': steps + [{'do': 'settle'}]})
        expected.append(due)

    def view(r):
        if 'ok' not in r:
            return r
        r = r['ok']
        if r['stuck'] or r['panics'] or any(t['ended'] for t in r['turns']):
            return {'failed': [r['stuck'], r['panics'], r['end']]}
        # each answer in the turn of its request: the step is part of the comparison through the order
        return {'ok': [[canon(m['id']), outcome(m)] for t in r['turns'] for m in answers(t)]}
    # (answers may come in any order as far as the property goes)
    order = lambda x: sorted(x, key=canon)
    got = [view(r) for r in ck.run('server', cases, timeout=90)]
    for g in got:
        if 'ok' in g:
            g['ok'] = order(g['ok'])
    ck.compare('conversations', cases, [order(e) for e in expected], got)
    ck.sample({'case': cases[len(cases) // 2]['steps'], 'answers': expected[len(cases) // 2]})

    # long random conversations, step by step and with free threads
    rng = ck.rng
    cases, lines = [], []
    for n in range(800 if ck.thorough else 160):
        free = n % 3 == 0
        steps, evs = [], []
        length = 400 if n % 40 in (5, 6) else 30
        ids = 60 if length == 30 else 2000
        replied, down_at = False, rng.choice([None, rng.randint(length // 2 if length > 30 else 0, length)])
        used = set()
        for k in range(length):
            x = rng.random()
            if k == down_at:
                pair = ask('down', 'shutdown', None)
            elif x < .45:
                while True:
                    id_ = rng.choice([rng.randint(-5, ids), 'id%d' % rng.randint(0, ids), 2147483647, -2147483648, '', '1'])
                    if canon(id_) not in used or not free:
                        break
                used.add(canon(id_))
                method = rng.choice(METHODS + ['shutdown'])
                params = rng.choice([None, {}, [], {'textDocument': {'uri': 'file:///w/a.move'}}])
                if method == 'shutdown' and params is None and rng.random() < .7:
                    params = {}
                pair = ask(id_, method, params)
            elif x < .6:
                pair = plain(note('$/cancelRequest', {'id': rng.choice([rng.randint(-5, ids), 'id%d' % rng.randint(0, ids)])}))
            elif x < .7:
                pair = plain(did_open('file:///w/%s.move' % rng.choice('ab'), k, rng.choice(['script {', '', 'module {}', '\n' * 99])))
            elif x < .75 and not replied:
                replied = True
                pair = ({'id': 0, 'result': rng.choice([None, {}])}, {'ev': 'reply', 'id': '', 'method': '', 'params': '', 'outcome': 0})
            else:
                pair = plain(rng.choice(NOTES))
            steps.append(pair[0])
            evs.append(pair[1])
        if free:
            cases.append({'caps': CAPS, 'steps': [{'do': 'free', 'msgs': steps, 'delays': [rng.choice([0, 0, 1, 200]) for _ in steps]}]})
        else:
            cases.append({'caps': CAPS, 'steps': [{'do': 'send', 'msgs': [m]} for m in steps] + [{'do': 'settle'}]})
        lines.append(evs)
    traces, which = [], []
    for c, evs, r in zip(cases, lines, ck.run('server', cases, timeout=90)):
        if 'ok' not in r or r['ok']['stuck'] or r['ok']['panics'] or any(t['ended'] for t in r['ok']['turns']):
            ck.violation('the server failed: %s' % str(r)[-400:], {'part': 'random', 'case': c, 'got': r})
            continue
        free = c['steps'][0]['do'] == 'free'
        by_step = {}
        for t in r['ok']['turns']:
            by_step.setdefault(t['step'], []).extend(answers(t))
        line = lambda m: {'ev': 'answer', 'id': canon(m['id']), 'method': '', 'params': '',
                          'outcome': outcome(m) if isinstance(outcome(m), int) else 99}
        quiet = {'ev': 'quiet', 'id': '', 'method': '', 'params': '', 'outcome': 0}
        tr = []
        if free:
            tr = evs + [line(m) for m in by_step.get(1, [])] + [quiet]
        else:
            for k, e in enumerate(evs):
                tr += [e] + [line(m) for m in by_step.get(k + 1, [])]
            tr += [line(m) for m in by_step.get(len(evs) + 1, [])] + [quiet]
        traces.append(tr)
        which.append(c)
    for i, _ in ck.validate_traces('RequestsTrace', traces, spec='TSpec', invariants=['Accept'], label='judge random conversations'):
        ck.violation('a conversation is not one of the specification', {'part': 'random', 'case': which[i], 'got': traces[i]})
