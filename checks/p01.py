"""P01: published diagnostics converge to the newest text of every open document (spec Server)."""
from lib.lsp import note, request
from lib.sched import History, from_spec, judge, pool

BASE = {'Docs': '{"a","b"}', 'Texts': '{"p","q","c"}', 'Clean': '{"c"}', 'None': '"-"'}


def model(ck):
    edits, tasks = ('4', '4') if ck.thorough else ('3', '3')
    ck.model('Server', label='the event loop and its workers, all interleavings',
             constants=dict(BASE, MaxEdits=edits, MaxTasks=tasks), properties=['P02Order'],
             invariants=['TypeOK', 'P01', 'P02', 'OnlyNewest'])
    ck.model('Server', spec='Fair', label='the same, with fairness: the editor is shown the truth in the end',
             constants=dict(BASE, MaxEdits='3', MaxTasks='3', Texts='{"p","q"}', Clean='{}'), properties=['P01Live'])


def schedules(ck, prop):
    """Behaviours of the specification, to be followed by the real server."""
    runs = [('{"a"}', '{"p","q"}', '{}', 3, 9), ('{"a","b"}', '{"p","q"}', '{}', 2, 9)]
    if ck.thorough:
        runs += [('{"a"}', '{"p","q","c"}', '{"c"}', 3, 9)]
    res = []
    for docs, texts, clean, edits, depth in runs:
        hists = ck.emitted('ServerGen', spec='GSpec', label='all schedules: %s, %s, %d messages' % (docs, texts, edits),
                           constants=dict(BASE, Docs=docs, Texts=texts, Clean=clean, MaxEdits=str(edits), MaxTasks='3',
                                          Depth=str(depth)), invariants=['P01', 'P02', 'Emit'])
        if not ck.thorough and len(hists) > 1500:
            hists = ck.rng.sample(hists, 1500)
        res += hists
    num, depth = (1500, 24) if ck.thorough else (120, 18)
    long_ = ck.emitted('ServerGen', spec='GSpec', label='long random schedules',
                       constants=dict(BASE, MaxEdits='9', MaxTasks='4', Depth=str(depth), Docs='{"a","b","c"}'),
                       invariants=['P01', 'P02', 'Emit'], simulate='num=%d' % num, depth=depth + 1)
    ck.rng.shuffle(long_)
    return res + long_[:8000 if ck.thorough else 800]


def agreement(ck, which, hists):
    """How often the model also predicts exactly what is published at each step (for the evidence only)."""
    same = total = 0
    for (h, r), hist in zip(which, hists):
        total += 1
        got = {}
        for t in r['turns']:
            got.setdefault(t['step'], 0)
            got[t['step']] += sum(m.get('method') == 'textDocument/publishDiagnostics' for m in t['messages'])
        same += all(got.get(n + 1, 0) == len(s['pubs']) for n, s in enumerate(hist))
    ck.extra['behaviours_with_the_same_publications_at_every_step'] = '%d of %d' % (same, total)


def chaos(ck, n, free):
    """Random histories: several messages at once, noise, more documents; or without any control."""
    rng = ck.rng
    res = []
    for _ in range(n):
        h = History(rng, utf8=rng.random() < .3)
        docs = ['a', 'b', 'c', 'd'][:rng.randint(1, 4)]
        texts = pool(rng, 5, 2)
        v, tasks = 0, 0
        for _ in range(rng.randint(4, 14)):
            pairs = []
            for _ in range(rng.choice([1, 1, 1, 2, 3, 6]) if not free else rng.randint(1, 12)):
                d, v = rng.choice(docs), v + rng.randint(1, 3)
                x = rng.random()
                if x < .1:
                    pairs.append((rng.choice([note('textDocument/didSave', {'textDocument': {'uri': 'file:///w/a.move'}}),
                                              note('$/cancelRequest', {'id': 7}), request(v, 'textDocument/hover', {}),
                                              note('workspace/didChangeConfiguration', {'settings': {}}),
                                              note('textDocument/didOpen', {'oops': 1})]), None))
                elif x < .25 and d in h.open:
                    pairs.append(h.m_close(d))
                elif x < .4 or d not in h.open:
                    pairs.append(h.m_open(d, v, rng.choice(texts)))
                else:
                    pairs.append(h.m_change(d, v, rng.choice(texts)))
                tasks += 1
            if free:
                h.free([rng.choice([0, 0, 1, 50, 300, 1500]) for _ in pairs], *pairs)
            else:
                # a message at a time, when the tasks would block each other
                h.send(*pairs[:4])
                for p in pairs[4:]:
                    h.send(p)
                for _ in range(rng.randint(0, 3)):
                    h.run(rng.randrange(max(1, tasks - 4), tasks + 1), rng.randint(1, 3)) if rng.random() < .5 else \
                        h.deliver(rng.sample(range(max(0, tasks - 5), tasks + 1), rng.randint(1, 2)))
                if rng.random() < .6 or len(pairs) > 2:
                    h.settle()
        if not free:
            h.settle()
        res.append(h)
    return res


def many(ck, n):
    """More documents than anybody has in front of him."""
    rng, res = ck.rng, []
    for _ in range(n):
        h = History(rng, utf8=rng.random() < .3)
        docs = ['d%d' % k for k in range(rng.choice([33, 65, 100, 130, 260]))]
        texts, v = pool(rng, 4, 1), 0
        def put(d):
            t = rng.choice(texts)
            return h.m_change(d, v, t) if d in h.open else h.m_open(d, v, t)
        for d in docs:
            v += 1
            h.send(put(d))
        h.settle()
        for _ in range(rng.randint(1, 3)):
            some = rng.sample(docs, rng.choice([1, 3, len(docs) // 2]))
            for d in some:
                v += 1
                h.send(h.m_close(d) if rng.random() < .1 and d in h.open else put(d))
            h.settle()
        res.append(h)
    return res


def both(ck, prop):
    model(ck)
    hists = schedules(ck, prop)
    histories = [from_spec(ck.rng, x, utf8=k % 3 == 0) for k, x in enumerate(hists)]
    which = judge(ck, prop, histories, 'behaviours of the specification')
    ck.replayed += len(histories)
    if len(which) == len(hists):
        agreement(ck, which, hists)
    ck.sample({'behaviour': hists[len(hists) // 2]})
    judge(ck, prop, chaos(ck, 3000 if ck.thorough else 400, False), 'random controlled schedules')
    judge(ck, prop, many(ck, 60 if ck.thorough else 6), 'many documents')
    judge(ck, prop, chaos(ck, 2000 if ck.thorough else 250, True), 'uncontrolled threads')


def check(ck):
    both(ck, 'P01')
