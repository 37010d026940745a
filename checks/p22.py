"""P22: the diagnostic store reports exactly the files whose diagnostics changed (spec DiagStore)."""
from lib.core import cps_of
from lib.lsp import *

# few different diagnostics, of many texts
TEXTS = ['', 'script { }', 'module M { }', '// c', 'script { ', 'script {', 'module', 'module ', 'script { fun f() { a b; } }', 'script { fun f() { a  b; } }', ';', ',',
         'script { fun f() { + } }', 'script { fun f() { * } }', 'script { fun f() { ; } }', ';\nscript', ';\nmodule', '\n;', '\n,', 'a', 'bb', '; script { } ;', '; module M { } ;']


def servers(ck, n, length):
    """Publications of servers: after every message, exactly the documents whose diagnostics changed."""
    rng, cases, told = ck.rng, [], []
    for _ in range(n):
        utf8, open_, steps, after = rng.random() < .3, {}, [], []
        version = 0
        pool = rng.sample(TEXTS, rng.randint(2, 8))
        for _ in range(length):
            d, version = rng.choice('abc'), version + 1
            if d not in open_:
                open_[d] = rng.choice(pool)
                m = did_open(uri(d), version, open_[d])
            elif rng.random() < .15:
                del open_[d]
                m = did_close(uri(d))
            else:
                open_[d] = rng.choice(pool)
                m = did_change(uri(d), version, [full(open_[d])])
            steps += [{'do': 'send', 'msgs': [m]}, {'do': 'settle'}]
            after.append(dict(open_))
        cases.append({'steps': steps, 'caps': {'offsetEncoding': ['utf-8']} if utf8 else {}})
        told.append((utf8, after))
    need = sorted({(t, utf8) for utf8, after in told for docs in after for t in docs.values()})
    as_diag = lambda k: {'id': repr(k), 'msg': k[5], 'src': '', 'sev': k[4], 'l': k[0], 'c': k[1], 'el': k[2], 'ec': k[3]}
    fresh = {k: [as_diag(d) for d in r['ok']] for k, r in zip(need, ck.run('diags', [{'s': cps_of(t), 'utf8': u} for t, u in need])) if 'ok' in r}
    traces, which, published = [], [], 0
    for c, (utf8, after), r in zip(cases, told, ck.run('server', cases, timeout=90)):
        if 'ok' not in r or r['ok']['stuck'] or r['ok']['panics']:
            ck.violation('the server failed: %s' % str(r)[-400:], {'part': 'servers', 'case': c, 'got': str(r)[-2000:]})
            continue
        groups = [[] for _ in after]
        for turn in r['ok']['turns']:
            groups[max(0, turn['step'] - 1) // 2] += publications(turn)
        held, seen, trace = [[], [], []], [[], [], []], []
        for docs, pubs in zip(after, groups):
            for d in sorted(docs):
                f = 'abc'.index(d)
                held[f] = fresh.get((docs[d], utf8), [])
                trace.append({'op': {'op': 'native', 'f': f, 'ds': held[f]}, 'obs': {'shown': [[x['id'] for x in h] for h in held]}})
            for p in pubs:
                f = 'abc'.index(p['uri'][-6])
                seen[f] = [as_diag(k)['id'] for k in diag_key(p['diagnostics'])]
            taken = ['abc'.index(p['uri'][-6]) for p in pubs]
            published += len(taken)
            if len(set(taken)) != len(taken):
                ck.violation('published more often than changed: %s' % [p['uri'] for p in pubs], {'part': 'servers', 'case': c, 'got': pubs})
            trace.append({'op': {'op': 'take'}, 'obs': {'taken': sorted(set(taken)), 'none': not taken, 'shown': [list(x) for x in seen]}})
        traces.append(trace)
        which.append(c)
    ck.extra['publications_of_servers'] = published
    for i, line in ck.validate_traces('DiagStoreTrace', traces, spec='TSpec', label='judge publications of servers', constants={'Files': '{0, 1, 2}'},
                                      invariants=['Accept', 'Bounded', 'Distinct']):
        ck.violation('what was published after message %s is not what changed' % line, {'part': 'servers', 'case': which[i], 'got': traces[i]})


def check(ck):
    base = {'Files': '{0, 1}', 'Diags': '<- DiagsDef', 'Lists': '<- ListsDef', 'Depth': '0'}
    ck.model('DiagStoreGen', spec='ASpec', label='the specification, with every choice of the files taken',
             constants=base if ck.thorough else dict(base, Diags='<- DiagsTwo', Lists='<- ListsTwo'), constraint='Small', invariants=['Bounded', 'Distinct'])
    servers(ck, 300 if ck.thorough else 80, 25)
    if ck.can('diagstore'):
        histories(ck, base)


def histories(ck, base):
    hists = []
    for files, diags, lists, d in [('{0, 1}', 'DiagsDef', 'ListsDef', 4), ('{0}', 'DiagsWide', 'ListsWide', 4 if ck.thorough else 3)] + \
            ([('{0}', 'DiagsDef', 'ListsDef', 6)] if ck.thorough else []):
        hists += ck.emitted('DiagStoreGen', spec='GSpec', label='all histories of %d operations (%s)' % (d, diags),
                            constants=dict(base, Files=files, Diags='<- ' + diags, Lists='<- ' + lists, Depth=str(d)),
                            invariants=['Bounded', 'Distinct', 'Emit'])
    cases = [{'ops': [s['op'] for s in h], 'files': len(h[0]['obs']['shown'])} for h in hists]
    bad = 0
    for h, c, r in zip(hists, cases, ck.run('diagstore', cases)):
        why = None
        if 'ok' not in r:
            why = str(r)
        else:
            for k, (s, o) in enumerate(zip(h, r['ok'])):
                if s['obs']['shown'] != o['shown']:
                    why = 'after %s: expected %s, got %s' % (c['ops'][:k + 1], s['obs']['shown'], o['shown'])
                    break
                if s['op']['op'] == 'take':
                    low, high, got = set(s['obs']['atleast']), set(s['obs']['atmost']), set(o['taken'])
                    if not low <= got <= high or o['none'] != (not o['taken']) or len(got) != len(o['taken']):
                        why = 'after %s: reported %s, not between %s and %s' % (c['ops'][:k + 1], o['taken'], low, high)
                        break
                    if got != high:
                        break  # allowed, but what follows in the specification's behaviour assumed all of them
        if why:
            bad += 1
            ck.violation(why, {'part': 'histories', 'case': c, 'got': r})
        else:
            ck.replayed += 1
    ck.part('replay histories', cases=len(cases), differing=bad)
    ck.sample({'history': hists[len(hists) // 3]})

    # long random histories
    cases = []
    for k in range(600 if ck.thorough else 150):
        # some with many files and diagnostics
        big = k % 25 == 7
        nf = ck.rng.randint(1, 4) if not big else 40
        pool = []
        for i in range(ck.rng.randint(2, 9) if not big else 90):
            l = ck.rng.randint(0, 1) if not big else i
            pool.append({'id': 'd%d' % i, 'msg': ck.rng.choice('mn'), 'src': ck.rng.choice('st'),
                         'sev': ck.rng.randint(0, 2), 'l': l, 'c': ck.rng.randint(0, 1), 'el': l + ck.rng.randint(0, 1),
                         'ec': ck.rng.randint(1, 2)})
        ops = []
        for _ in range(60 if not big else 160):
            x = ck.rng.random() if not big else ck.rng.choice([.1, .4, .5, .6, .6, .69, .69, ck.rng.random()])
            f = ck.rng.randrange(nf)
            if x < 0.35:
                ops.append({'op': 'native', 'f': f, 'ds': [ck.rng.choice(pool) for _ in range(ck.rng.choice([0, 1, 1, 2, 3] if not big else [0, 1, 20, 70]))]})
            elif x < 0.7:
                ops.append({'op': 'check', 'f': f, 'd': ck.rng.choice(pool)})
            elif x < 0.8:
                ops.append({'op': 'clear'})
            else:
                ops.append({'op': 'take'})
        cases.append({'ops': ops, 'files': 4 if not big else 40})
    traces, which = [], []
    for c, r in zip(cases, ck.run('diagstore', cases)):
        if 'ok' not in r:
            ck.violation('the store failed: %s' % r, {'part': 'random', 'case': c, 'got': r})
        else:
            traces.append([{'op': o, 'obs': b} for o, b in zip(c['ops'], r['ok'])])
            which.append(c)
    for files in (4, 40):
        these = [i for i, c in enumerate(which) if c['files'] == files]
        for i, line in ck.validate_traces('DiagStoreTrace', [traces[i] for i in these], spec='TSpec',
                                          label='judge random histories of %d files' % files,
                                          constants={'Files': '{%s}' % ', '.join(map(str, range(files)))},
                                          invariants=['Accept', 'Bounded', 'Distinct']):
            ck.violation('a recorded history is not one of the specification',
                         {'part': 'random', 'case': which[these[i]], 'got': traces[these[i]]})
