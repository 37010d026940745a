"""P23: exactly what is no program is reported, first where it stops being one (spec Reader)."""
from checks.p15 import LARGE, SMALL
from lib.core import cps_of
from lib.moves import any_text, broken_tokens, gap

WORDS = ['struct', 'script', 'module', 'const', 'use', 'as', 'let', 'mut', 'return', 'fun', 'true', 'false', 'move', 'while', 'if', 'else', 'break', 'continue', 'public',
         'abort', 'loop', 'copy', 'acquires', 'native', 'friend', 'spec', 'address', 'a', 'T', '_', 'x1', '0', '42u8', '7', '0x1', '0xAbc', '0x', 'x"0a"', 'b"h"', 'b"\\""',
         '@', '(', ')', '{', '}', '[', ']', '<', '>', ',', ';', ':', '::', '.', '..', '+', '-', '*', '/', '%', '^', '|', '&', '&mut', '&&', '||', '=', '==', '!=', '<=', '>=',
         '<<', '>>', '!', '#', '==>', '<==>', '\u00e9', '"', 'x"', '\\', '$', '\U0001f600']


def kind(k, text):
    return 'HEX' if k in ('INTEGER_NUMBER', 'DIEM_ADDRESS') and text.startswith('0x') else k


def kinds(ck):
    """The words of every kind of token."""
    res = {}
    for w, r in zip(WORDS, ck.run('leaves', [{'s': cps_of(w)} for w in WORDS])):
        if len(r.get('ok', [])) == 1:
            res.setdefault(kind(r['ok'][0][0], w), []).append(w)
        elif 'ok' not in r:
            ck.violation('reading %r failed: %s' % (w, r), {'part': 'words', 'case': w, 'got': r})
    return res


def write(rng, words):
    out = [rng.choice(['', '', ' ', '\n// c\n'])]
    for i, w in enumerate(words):
        out.append(w)
        # an unterminated string takes the rest of its line
        out.append('\n' if '"' in w else ' ' if rng.random() < .6 else gap(rng, w, words[i + 1]) if i + 1 < len(words) else '')
    return ''.join(out)


def judge(ck, label, texts):
    texts = list(dict.fromkeys(texts))
    records, which = [], []
    for t, r in zip(texts, ck.run('skeleton', [{'s': cps_of(t)} for t in texts])):
        if 'ok' not in r:
            ck.violation('reading %r failed: %s' % (t[:300], r), {'part': label, 'case': t, 'got': r})
            continue
        records.append({'tokens': [kind(e[1], e[2]) for e in r['ok']['tree'] if e[0] == 'l'], 'errors': [e[1] for e in r['ok']['errors']]})
        which.append((t, r['ok']['errors']))
    for b in ck.validate('ReaderCases', records, label='judge ' + label):
        i = b['bad'] - 1
        say(ck, label, which[i][0], b['viable'], b['viable'] == b['of'] + 1, which[i][1])
    ck.part(label, texts=len(records), without_errors=sum(not r['errors'] for r in records))


def say(ck, label, t, viable, program, errors):
    what = 'is a program, but errors are reported' if program else \
        'is no program from token %d on, but no error is reported' % (viable + 1) if not errors else \
        'is no program from token %d on, but the first error is elsewhere' % (viable + 1)
    ck.violation('%r %s: %s' % (t[:300], what, errors[:2]), {'part': label, 'case': t, 'viable': viable, 'got': errors})


def machine(ck, words, few=False):
    """The tokens of those ways; without replacements where few are enough."""
    gen = ck.emitted('ReaderGen', label='ways through the machine', invariants=['Law', 'EmitFew' if few else 'Emit'], view='View',
                     constants={'Kinds': '{%s}' % ', '.join('"%s"' % k for k in sorted(words)), 'MaxLen': '28' if ck.thorough else '20', 'Top': '5' if ck.thorough else '3'})
    return sorted(gen, key=lambda g: g['tokens'])


def texts_of_ways(ck):
    """Texts that go every way; lists of tokens."""
    words = kinds(ck)
    return [[ck.rng.choice(words[k]) for k in g['tokens']] for g in machine(ck, words, few=True)]


def ways(ck, words):
    """To every state of the machine, with every token, and on to the end."""
    rng = ck.rng
    gen = machine(ck, words)
    # one word a token, so that every token is written as every word of its kind now and then
    texts = [write(rng, [rng.choice(words[k]) for k in g['tokens']]) for g in gen]
    bad = 0
    for g, t, r in zip(gen, texts, ck.run('skeleton', [{'s': cps_of(t)} for t in texts])):
        program = g['viable'] == len(g['tokens']) + 1
        if 'ok' not in r:
            ck.violation('reading %r failed: %s' % (t[:300], r), {'part': 'ways', 'case': t, 'got': r})
            continue
        read = [kind(e[1], e[2]) for e in r['ok']['tree'] if e[0] == 'l']
        errors = r['ok']['errors']
        if read != g['tokens']:
            bad += 1
            ck.violation('the tokens of %r are %s instead of %s' % (t[:300], read, g['tokens']), {'part': 'ways', 'case': t, 'got': r['ok']})
        elif program != (not errors) or errors and errors[0][1] != g['viable']:
            bad += 1
            say(ck, 'ways', t, g['viable'], program, errors)
        else:
            ck.replayed += 1
    ck.sample({'tokens': gen[len(gen) // 2]['tokens'], 'viable': gen[len(gen) // 2]['viable']})
    ck.part('replay ways through the machine', cases=len(gen), differing=bad)


def mutants(ck, words):
    """Programs of the grammar with a token more, less, or another."""
    rng, texts = ck.rng, []
    for goal, size, ops, num in LARGE:
        gen = ck.emitted('GrammarGen', label='random programs: ' + goal, invariants=['Emit', 'Read'], simulate='num=%d' % (num if ck.thorough else max(10, num // 5)), depth=20 * size,
                         constants={'Size': str(size), 'Goal': '"%s"' % goal, 'Names': '{"a","B"}', 'Ops': '<- ' + ops, 'Without': '{}'})
        for g in gen:
            ts = [e[2] for e in g['tree'] if e[0] == 'l']
            for _ in range(6 if ck.thorough else 3):
                us = list(ts or ['script'])
                for _ in range(rng.choice([1, 1, 1, 2])):
                    i, x = rng.randrange(len(us)), rng.random()
                    other = rng.choice(words[rng.choice(sorted(words))]) if rng.random() < .6 else rng.choice(ts or ['fun'])
                    if x < .3 and len(us) > 1:
                        del us[i]
                    elif x < .6:
                        us.insert(i, other)
                    elif x < .9:
                        us[i] = other
                    else:
                        us = us[:i + 1]
                texts.append(write(rng, us))
    judge(ck, 'programs with mistakes', texts)


def check(ck):
    rng = ck.rng
    words = kinds(ck)
    for goal, size, ops, without, names, _ in SMALL:
        if goal not in ('Expr', 'Stmts') or ck.thorough:
            ck.model('GrammarGen', label='the machine reads the grammar: ' + goal, invariants=['Read'],
                     constants={'Size': str(size), 'Goal': '"%s"' % goal, 'Names': names, 'Ops': '<- FewOps', 'Without': without})
    ways(ck, words)
    mutants(ck, words)
    n = 20000 if ck.thorough else 5000
    judge(ck, 'random texts', [any_text(rng) for _ in range(n)] + [' '.join(broken_tokens(rng)) for _ in range(n)])
