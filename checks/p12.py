"""P12: a snapshot answers from its own moment or reports cancellation (spec Snapshots)."""
from checks.p01 import chaos
from checks.p11 import GROUPS
from lib import moves
from lib.core import canon, cps_of
from lib.sched import from_spec


def world(rng, files, changes):
    """Texts and changes: every moment differs from the one before in what can be asked."""
    texts = [t for g in rng.sample(GROUPS, 4) for t in g]
    # texts that take a while to parse
    long_ = '\n'.join('module M%d { fun f() { let x = (1 + %s; } }' % (i, 'y' * (i % 7)) for i in range(rng.choice([50, 300])))
    texts += [long_, long_[:-3] + '}', '\n' + long_, moves.any_text(rng), moves.any_text(rng)]
    rng.shuffle(texts)
    n = len(texts)
    out = [[[f, rng.randrange(n)] for f in range(files)]]
    for _ in range(changes):
        out.append([[f, rng.randrange(n)] for f in rng.sample(range(files), rng.randint(1, files))])
    return {'texts': [cps_of(t) for t in texts], 'changes': out, 'files': files}


def follow(rng, hist, w):
    """A schedule of the specification in a world; what to expect of its answers."""
    ops, expect, asked = [], [], {}
    for s in hist:
        op = {'do': s['do']}
        if 's' in s:
            op['s'] = s['s']
        if s['do'] == 'ask':
            op['kind'], op['f'] = rng.choice(['diags', 'diags', 'index']), rng.randrange(w['files'])
            asked[s['s']] = op['kind'], op['f']
        elif s['do'] == 'answer':
            expect.append((asked[s['s']], s['at'], s['cancel']))
        elif s['do'] == 'begin':
            op['pause'] = rng.random() < .6
        ops.append(op)
    return dict(w, ops=ops), expect


def replay(ck, hists, label):
    worlds = []
    for k in range(40):
        worlds.append(world(ck.rng, ck.rng.choice([1, 1, 2, 4]), 4))
    moments = ck.run('moments', worlds)
    cases, expects, which = [], [], []
    for n, h in enumerate(hists):
        w = n % len(worlds)
        c, e = follow(ck.rng, h, worlds[w])
        cases.append(c)
        expects.append(e)
        which.append(moments[w]['ok'])
    cancelled = answered = 0
    for c, expect, m, r in zip(cases, expects, which, ck.run('schedule', cases, timeout=40)):
        def bad(what):
            ck.violation('%s: %s' % (label, what), {'part': label, 'case': c, 'got': r})
        if 'ok' not in r:
            bad('failed: %s' % str(r)[:300])
            continue
        r = r['ok']
        if 'stuck' in r:
            bad(r['stuck'])
            continue
        if 'early' in r:
            bad('a change is applied while a snapshot is in use')
            continue
        ok = True
        for ((kind, f), at, cancel), got in zip(expect, r['answers']):
            if got == 'cancelled' and cancel:
                cancelled += 1
            elif canon(got) == canon(m[at][f][kind]):
                answered += 1
            else:
                ok = False
                bad('a question about moment %d is answered with %s instead of %s%s' % (at, got, m[at][f][kind], ' or cancellation' if cancel else ''))
                break
        if ok and canon(r['end']) != canon(m[r['applied'] - 1]):
            bad('after the last change the answers are not those of the last moment')
        elif ok:
            ck.replayed += 1
    ck.part('replay ' + label, schedules=len(cases), answers=answered, cancelled=cancelled)


def recorded(ck, n):
    """Threads left to themselves; TLC judges the recordings."""
    cases = []
    for _ in range(n):
        w = world(ck.rng, ck.rng.choice([1, 2, 5]), ck.rng.randint(3, 12))
        rounds = []
        for _ in w['changes']:
            readers = []
            for _ in range(ck.rng.choice([0, 1, 2, 4, 8])):
                qs = [[ck.rng.choice(['diags', 'diags', 'index']), ck.rng.randrange(w['files']), ck.rng.choice([None, None, 0, 50, 500, 2000])]
                      for _ in range(ck.rng.randint(0, 6))]
                readers.append({'questions': qs, 'leave': ck.rng.random() < .5})
            rounds.append({'readers': readers, 'pause': ck.rng.choice([0, 0, 100, 1000, 5000])})
        cases.append(dict(w, rounds=rounds))
    moments = ck.run('moments', cases)
    traces, which, counts = [], [], {'answers': 0, 'cancelled': 0, 'changes': 0}
    for c, m, r in zip(cases, moments, ck.run('threads', cases, timeout=60, procs=4)):
        if 'ok' not in r:
            ck.violation('threads with snapshots: %s' % str(r)[:300], {'part': 'threads', 'case': c, 'got': r})
            continue
        trace, failed = [], None
        for ev in r['ok']:
            if ev['ev'] == 'stuck':
                failed = 'nothing moves any more'
                break
            if ev['ev'] == 'answer':
                if isinstance(ev['answer'], dict) and 'panic' in ev['answer']:
                    failed = 'a question on a snapshot panics: %s' % ev['answer']['panic']
                    break
                ev = dict(ev, fits=[k for k, x in enumerate(m['ok']) if x[ev['f']][ev['kind']] == ev['answer']], answer='', kind='')
                counts['cancelled' if ev['cancelled'] else 'answers'] += 1
            elif ev['ev'] == 'finish':
                counts['changes'] += 1
            trace.append(ev)
        if failed:
            ck.violation('threads with snapshots: ' + failed, {'part': 'threads', 'case': c, 'got': r})
            continue
        traces.append(trace)
        which.append(c)
    ck.part('threads', recordings=len(traces), **counts)
    for i, _ in ck.validate_traces('SnapshotsTrace', traces, spec='TSpec', invariants=['Accept', 'OneMoment'],
                                   constants={'Snaps': '{%s}' % ', '.join('"s%d"' % i for i in range(64))}):
        ck.violation('threads with snapshots do what the specification excludes', {'part': 'threads', 'case': which[i], 'got': traces[i]})


def server(ck):
    """The same in the server: its worker threads hold snapshots while it applies the editor's changes."""
    hists = ck.emitted('ServerGen', spec='GSpec', label='schedules of the server',
                       constants={'Docs': '{"a","b"}', 'Texts': '{"p","q","c"}', 'Clean': '{"c"}', 'None': '"-"', 'MaxEdits': '6', 'MaxTasks': '4', 'Depth': '14'},
                       invariants=['P01', 'Emit'], simulate='num=%d' % (200 if ck.thorough else 15), depth=15)
    ck.rng.shuffle(hists)
    hists = [from_spec(ck.rng, h) for h in hists[:1200 if ck.thorough else 150]]
    hists += chaos(ck, 600 if ck.thorough else 100, True)
    good = 0
    for h, r in zip(hists, ck.run('server', [h.case() for h in hists], timeout=90.0)):
        r = r.get('ok', {'stuck': str(r), 'panics': []})
        if r['stuck'] or r['panics']:
            ck.violation('in the server: %s' % str(r['stuck'] or r['panics'])[:300], {'part': 'server', 'case': h.case(), 'got': r['stuck'] or r['panics']})
        else:
            good += 1
    ck.replayed += good
    ck.part('the server under the same', histories=len(hists), fine=good)


def check(ck):
    inv = ['STypeOK', 'OneMoment', 'AnswersTrue', 'Calm']
    ck.model('SnapshotsGen', spec='GSpec', label='all schedules of two snapshots', invariants=inv, properties=['AppliedAlone'],
             constants={'Snaps': '{"s","t"}', 'Depth': '7' if ck.thorough else '6', 'MaxChanges': '2'})
    ck.model('Snapshots', spec='SSpec', label='any number of questions, four snapshots', invariants=inv, properties=['AppliedAlone'],
             constants={'Snaps': '{"s","t","u","v"}'}, constraint='Few')
    ck.model('Snapshots', spec='Fairly', label='the writer is let in', properties=['LetIn'], constants={'Snaps': '{"s","t"}'}, constraint='Few')
    depth = 8
    got = ck.emitted('SnapshotsGen', spec='GSpec', label='all schedules: one snapshot at a time', invariants=inv + ['Emit'],
                     constants={'Snaps': '{"s"}', 'Depth': '12', 'MaxChanges': '3'})
    two = ck.emitted('SnapshotsGen', spec='GSpec', label='all schedules: two snapshots', invariants=inv + ['Emit'],
                     constants={'Snaps': '{"s","t"}', 'Depth': str(depth), 'MaxChanges': '2'})
    many = ck.emitted('SnapshotsGen', spec='GSpec', label='long random schedules', invariants=inv + ['Emit'], depth=31,
                      simulate='num=%d' % (500 if ck.thorough else 60), constants={'Snaps': '{"s","t","u","v"}', 'Depth': '30', 'MaxChanges': '4'})
    n = 20000 if ck.thorough else 1500
    hists = ck.rng.sample(got, min(len(got), n)) + ck.rng.sample(two, min(len(two), n)) + ck.rng.sample(many, min(len(many), n))
    replay(ck, hists, 'schedules of the specification')
    ck.sample({'schedule': hists[-1]})
    recorded(ck, 400 if ck.thorough else 60)
    server(ck)
