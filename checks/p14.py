"""P14: the syntax tree reproduces the source text, with errors inside it (spec Tree)."""
from lib.core import cps_of
from lib.moves import any_text, contexts
from checks.p23 import texts_of_ways, write


# where white space and comments may stand: around a whole program, within one, around what is no program
PLACES = [('', ''), ('', 'script { }'), ('script { }', ''), ('module 0x1::M {', '}'), ('script { fun f() { a', '; } }'), ('script { fun f() {', '} }'),
          ('script {', ''), ('script { fun', '} } module'), ('\u00e9', '\u00e9'), ('script { fun f() { let a = 1', '+ } }')]
TRIVIA = [' ', '\n', '//\n', '// \u00e9 {', '\t\n ', '////\n']


def trivia(ck):
    n = 4 if ck.thorough else 3
    gen = ck.emitted('SoupGen', label='all sequences of %d pieces of trivia in every place' % n,
                     constants={'Beginnings': str(len(PLACES)), 'Vocabulary': str(len(TRIVIA)), 'MaxLen': str(n)}, invariants=['Emit'])
    # and longer ones at the ends
    gen += ck.emitted('SoupGen', label='longer sequences of trivia',
                      constants={'Beginnings': '4', 'Vocabulary': '4' if ck.thorough else '3', 'MaxLen': str(n + 3)}, invariants=['Emit'])
    for g in gen:
        a, b = PLACES[g['b'] - 1]
        yield a + ''.join(TRIVIA[t - 1] for t in g['ts']) + b


def texts(ck):
    rng = ck.rng
    res = ['', '\n', '//', '// c', ' \n// \u00e9\n\t', '\U0001f600', 'script', '{', '\u00e9{', '\u00e9 "']
    res += [any_text(rng) for _ in range(12000 if ck.thorough else 2500)]
    # errors at the very end, after every kind of character and gap
    for c in contexts():
        for last in ['', '\u00e9', '\U0001f600', ' // \u65e5', '\n', '"', 'x"\u00e9', '(', ')', ';', ':', '{', '}}}}', '@', '0x', '<', ',']:
            res.append(c + last)
    return res


def check(ck):
    ck.model('TreeTexts', label='the machine accepts exactly the trees of a text', constants={'Texts': '<- Small', 'MaxEvents': '6' if ck.thorough else '5', 'MaxDepth': '3'},
             invariants=['Law'])
    ts = sorted(set(trivia(ck))) + texts(ck) + [write(ck.rng, ws) for ws in texts_of_ways(ck)]
    records, which, nodes = [], [], 0
    for t, r in zip(ts, ck.run('tree', [{'s': cps_of(t)} for t in ts])):
        if 'ok' not in r:
            ck.violation('reading %r failed: %s' % (t[:300], r), {'part': 'tree', 'case': t, 'got': r})
            continue
        records.append(dict(s=cps_of(t), **r['ok']))
        which.append(t)
        nodes += len(r['ok']['events'])
    ck.extra['tree_events_judged'] = nodes
    ck.sample({'text': which[-12], 'events': records[-12]['events'][:12]})
    for b in ck.validate('TreeCases', records):
        i = b['bad'] - 1
        ck.violation('the tree of %r is not a tree of that text, or its errors are not inside' % which[i][:300],
                     {'part': 'tree', 'case': which[i], 'got': records[i]})
