"""P11: incremental analysis equals analysis from scratch (spec Incremental)."""
from lib.core import cps_of
from lib import moves

KINDS = ['text', 'tree', 'errors', 'diags', 'lines', 'index']
A = 'module M {\n    fun f() { a }\n' + '    fun g() { let x = 1; }\n' * 30 + '}\n'
# groups of texts that are easily taken for equal
GROUPS = [
    ['script {}', 'script { }', 'script {}\n'], ['module M {}', 'module N {}', 'module M }'],
    ['a', 'b', '}'], ['script {', 'script }', '{script '], [A, A[:200] + 'b' + A[201:], A[:200] + '}' + A[201:]],
    [A, A + ' ', ' ' + A], ['\n', '\n\n', ' '], ['x\ny', 'x y', 'xy\n'], ['"\u00e9"', '"e\u0301"', '"ee"'],
    ['// \U0001f600', '// \U0001f601', '// abcd'], ['module M { fun f() { 1 + } }', 'module M { fun f() { 1 +  } }', 'module M { fun f() { 1 + 2 } }'],
    ['}' * 200, '}' * 199, '}' * 128], ['module M { struct S { x: u8 } }', 'module M { struct S { x: u9 } }', 'module M { struct S { x u8 } }'],
    ['script { fun main() {} }', 'script { fun main() {} ', 'script { fun main() {} }\n\n\n'], ['0x1', '0x', '01x'],
    ['address 0x1 { module M {} }', 'address 0x2 { module M {} }', 'address 0x1 { module M {}  '], ['\u00e9\na', 'a\n\u00e9', 'a\u00e9\n'],
]
PATHS = ['/a.move', '/a/b.move', '/A.move', '/a', '/b/a.move', '/\u00e9.move', '/a.move.move']


def facts(ck, texts):
    texts = sorted(set(texts))
    res = {}
    for t, r in zip(texts, ck.run('facts', [{'s': cps_of(t)} for t in texts], chunk=1)):
        if 'ok' not in r:
            ck.violation('no answers about %r: %s' % (t[:200], r), {'part': 'facts', 'case': t, 'got': r})
        else:
            res[t] = r['ok']
    return res


def concrete(rng, g, texts, nfiles, lru=None):
    """A history of the specification for the library, and a function from facts to the expected answers."""
    # text 0 of the specification is that of a removed file
    table = [''] + texts
    case = {'texts': [cps_of(t) for t in table], 'paths': (PATHS + ['/p%d' % i for i in range(nfiles)])[:max(nfiles, 1)], 'ops': []}
    if lru:
        case['lru'] = lru
    ops, want = case['ops'], []
    known, owner, roots = {}, {}, None
    moods = rng.choice([0, .3, 1])

    def questions(files):
        asked = [(k, f) for f in files for k in rng.sample(KINDS, rng.choice([1, 2, len(KINDS)]))]
        rng.shuffle(asked)
        if asked:
            ops.append({'ask': [[k, f] for k, f in asked], 'via': rng.choice(['host', 'snapshot'])})
            want.append([(k, table[known[f]]) for k, f in asked])

    def places():
        if roots is not None:
            placed = [f for f in range(nfiles) if f in owner]
            ops.append({'where': placed, 'count': len(roots)})
            want.append({'owners': [owner[f] for f in placed],
                         'all': {'roots': [{'lib': r['lib'], 'files': sorted([f, case['paths'][f]] for f in r['files'])} for r in roots],
                                 'local': [i for i, r in enumerate(roots) if not r['lib']],
                                 'library': [i for i, r in enumerate(roots) if r['lib']]}})
    for op in g['hist']:
        if op['op'] == 'ask':
            questions([op['f'] - 1])
            continue
        new = {'files': [], 'cancel': rng.random() < .1}
        if op['roots']:
            roots = [{'lib': r['lib'], 'files': [f - 1 for f in r['files']]} for r in op['roots'][0]]
            new['roots'] = roots
            owner = {f: i for i, r in enumerate(roots) for f in r['files']}
        for f, t in op['files']:
            new['files'].append([f - 1, None if t == 0 and rng.random() < .7 else t])
            known[f - 1] = t
        ops.append(new)
        if rng.random() < moods:
            questions(sorted(known))
        if rng.random() < .3:
            places()
    # the end of the history, as the specification gives it
    for f, t in enumerate(g['end']['text']):
        assert t == ([known[f]] if f in known else [])
    for f, o in enumerate(g['end']['owner']):
        assert o == ([owner[f] + 1] if f in owner else []), (g, owner)
    rest = sorted(known)
    ops.append({'ask': [[k, f] for f in rest for k in KINDS], 'via': rng.choice(['host', 'snapshot'])})
    want.append([(k, table[known[f]]) for f in rest for k in KINDS])
    places()
    return case, want


def judge(ck, label, pairs):
    known = facts(ck, [t for _, want in pairs for w in want if isinstance(w, list) for _, t in w])
    if ck.violations:
        return
    expected = [[w if isinstance(w, dict) else [known[t][k] for k, t in w] for w in want] for _, want in pairs]

    def describe(c, e, r):
        if 'ok' not in r:
            return 'a history of changes fails: %s' % str(r)[:300]
        n = next(n for n, (x, y) in enumerate(zip(e, r['ok'])) if x != y)
        return 'after a history of changes, answer %d is not the one of a fresh analysis: %s instead of %s' % (n, str(r['ok'][n])[:200], str(e[n])[:200])
    ck.compare(label, [c for c, _ in pairs], expected, ck.run('incremental', [c for c, _ in pairs]), describe)


def base(**kw):
    return dict(dict(Files='{1}', Texts='{1,2}', Depth='14', MaxRoots='2', MaxChanges='1', Sample='FALSE', Rootless='TRUE'),
                **{k: str(v) for k, v in kw.items()})


def check(ck):
    ck.model('IncrementalGen', spec='ESpec', label='the query engine with the durabilities it is given: one file', invariants=['Sound'],
             constants=base(Depth=18 if ck.thorough else 14), constraint='Bounded')
    ck.model('IncrementalGen', spec='ESpec', label='the query engine: two files', invariants=['Sound'],
             constants=base(Files='{1,2}', Depth=10 if ck.thorough else 8, Rootless='FALSE'), constraint='Bounded')
    if ck.thorough:
        ck.model('IncrementalGen', spec='ESpec', label='the query engine: two files, two at a time', invariants=['Sound'],
                 constants=base(Files='{1,2}', Depth=10, MaxChanges=2, Rootless='FALSE'), constraint='Bounded')
    gen = []
    runs = [dict(MaxRoots=1, Depth=4), dict(MaxRoots=2, Depth=3, Texts='{1}')]
    for r in runs:
        got = ck.emitted('IncrementalGen', spec='GSpec', label='all histories: %s' % r, invariants=['Sound', 'Emit'], constants=base(**r))
        gen += [(g, 1) for g in (got if ck.thorough and len(got) < 60000 else ck.rng.sample(got, min(len(got), 40000 if ck.thorough else 3000)))]
    for files, roots, depth, n in [(2, 2, 14, 400), (3, 3, 25, 300), (4, 2, 40, 100)]:
        num = n if ck.thorough else n // 20
        got = ck.emitted('IncrementalGen', spec='GSpec', label='random histories: %d files, %d roots, %d steps' % (files, roots, depth), invariants=['Sound', 'Emit'],
                         constants=base(Files='{%s}' % ','.join(str(i + 1) for i in range(files)), Texts='{1,2,3}', MaxRoots=roots, MaxChanges=2,
                                        Depth=depth, Sample='TRUE'), simulate='num=%d' % num, depth=depth + 1)
        ck.rng.shuffle(got)
        gen += [(g, files) for g in got[:num * 4]]
    pairs = []
    for n, (g, files) in enumerate(gen):
        texts = list(GROUPS[n % len(GROUPS)])
        if n % 3 == 0:
            ck.rng.shuffle(texts)
        pairs.append(concrete(ck.rng, g, texts, files, lru=ck.rng.choice([None, None, 1, 2])))
    judge(ck, 'histories of the specification', pairs)
    ck.sample({'history': gen[-1][0], 'case': pairs[-1][0]['ops'][:6]})

    # many files (more than the engine remembers answers for), random texts, edits as an editor makes them
    pairs = []
    for n in range(60 if ck.thorough else 12):
        files = ck.rng.choice([5, 40, 200, 300])
        texts = [moves.any_text(ck.rng) for _ in range(12)]
        texts += [t[:len(t) // 2] + ck.rng.choice(['x', ' ', '\n', '}', '\u00e9']) + t[len(t) // 2:] for t in texts]
        hist, known, rts = [], {}, None
        for _ in range(ck.rng.randint(5, 30)):
            op = {'op': 'change', 'roots': [], 'files': []}
            if rts is None or ck.rng.random() < .3:
                m = ck.rng.randint(1, 5)
                rts = [{'lib': ck.rng.random() < .5, 'files': []} for _ in range(m)]
                for f in range(1, files + 1):
                    if ck.rng.random() < .9:
                        rts[ck.rng.randrange(m)]['files'].append(f)
                op['roots'] = [rts]
                placed = [f for r in rts for f in r['files']]
            for f in ck.rng.sample(placed, ck.rng.choice([1, 1, 2, len(placed) // 2, len(placed)])):
                known[f] = ck.rng.randint(0, len(texts))
                op['files'].append([f, known[f]])
            hist.append(op)
            if ck.rng.random() < .5:
                hist += [{'op': 'ask', 'f': f} for f in ck.rng.sample(sorted(known), ck.rng.randint(1, min(10, len(known))))]
        own = {f: i + 1 for i, r in enumerate(rts) for f in r['files']}
        end = {'text': [[known[f]] if f in known else [] for f in range(1, files + 1)],
               'owner': [[own[f]] if f in own else [] for f in range(1, files + 1)]}
        pairs.append(concrete(ck.rng, {'hist': hist, 'end': end}, texts, files))
    judge(ck, 'many files', pairs)
