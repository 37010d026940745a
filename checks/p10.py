"""P10: relative paths resolve inside the anchor's file set and nowhere else (spec FileSets)."""
from checks.p09 import path, random_part, spell


def check(ck):
    cases, expected = [], []
    for kind in ('Real', 'Virtual', 'Mixed'):
        gen = ck.emitted('ResolveGen', label='all anchors and relative paths, %s' % kind.lower(),
                         constants={'Universe': '<- %sUniverse' % kind, 'MaxUp': '3', 'Downs': '<- DownsDef'},
                         invariants=['Inside', 'Emit'])
        for g in gen:
            real = g['anchor'][0] == '/'
            existing = {tuple(f) for f in g['files']}
            everything = sorted(existing | {tuple(g['anchor'])} | {('/', 'a', 'x')})
            ck.rng.shuffle(everything)
            queries, answers = [], []
            for a in g['answers']:
                some = lambda p: None if p == ['?'] else path(p)
                forms = [spell(a['rel'])]
                if real and a['rel']['dots'] == 1:
                    forms.append('../' * a['rel']['up'] + 'q/../' + '/'.join(a['rel']['down']))
                    forms.append('.//' + spell(a['rel']) + '/')
                for f in forms:
                    queries.append([path(g['anchor']), f])
                    answers.append([some(a['second']), some(a['first'])])
            # the first configured set is "b", everything else is in the extra set
            cases.append({'real': real, 'config': [['/b', '#/b']],
                          'files': [[path(f), f in existing] for f in everything], 'queries': queries})
            second = sorted(path(f) for f in existing if f[1] == 'b')
            first = sorted(path(f) for f in existing if f[1] != 'b')
            expected.append({'sets': [second, first], 'inverse': True, 'answers': answers})
    ck.compare('resolutions', cases, expected, ck.run('filesets', cases))
    ck.extra['queries_replayed'] = sum(len(c['queries']) for c in cases)
    ck.sample({'files': cases[50]['files'], 'queries': cases[50]['queries'][:3], 'answers': expected[50]['answers'][:3]})
    random_part(ck, 'P10', 500 if ck.thorough else 120)
