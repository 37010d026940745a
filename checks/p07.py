"""P07: no document content can stop the server or the diagnostics of others (specs SoupGen, Server, ClientView)."""
from lib.core import cps_of
from lib.lsp import *
from lib.moves import *
from checks.p23 import texts_of_ways, write
from lib.sched import BROKEN, CLEAN, History, judge

VOCABULARY = ['struct', 'script', 'module', 'let', 'mut', 'return', 'fun', 'true', 'move', 'if', 'address', 'a', '_', '0', '0x1', 'x"0a"', 'x"', '"',
              '@', '(', ')', '{', '}', '[', ']', '<', '>', ',', ';', ':', '::', '.', '..', '+', '*', '&', '&mut', '&&', '=', '==', '|', '!', '-', '#',
              '\u00e9', '// c', 'use', '==>', '\r', '//']
# repeated many times
UNITS = ['(', '{', '[', ')', '}', '<', '>', ';', ',', ':', '::', '.', '..', '+', '-', '!', '*', '&', '&mut ', '|', '=', '@', '#', '"', 'x"', 'x"\n', 'b"\\', '\\',
         'a', 'a ', 'a(', 'a{', 'a{b:', 'a+', 'a.', 'a::', '-a+', '(a,', 'f(a,', 'let ', 'let a=', 'let (', 'let (a,', 'let S{', 'let S{a:', 'script ', 'script{',
         'script{fun f(){', 'module ', 'module M{', 'module 0x1::', 'module M{struct S<', 'address ', 'address 0x1{', 'address 0x1{module M{', 'struct ', 'struct S<T:',
         'struct S{a:', 'struct S{{', 'fun ', 'fun f(', 'fun f(a:', 'fun f():', 'fun f(){', 'T:A+', '&&', '0', '0x', '0xu8', '1u', '\u00e9', '\U0001f600', '\n', ' ',
         '\t', '\r', '\r\n', '//', '//\n', '// c\n', '/', '/ ', '\0', '{}', '()', '{;}', '{a', '{let', ';)', '(;', '{(', '{()', '){', '}{', 'mut ', 'true ', 'return ',
         '==', '==>', '<==>', '{,', ':{', '.{', '={', '@{', '::{', '::*', 'a::{', 'a::*']
STARTS = ['', 'script { fun f() { ', 'script { fun f(', 'module M { struct S { ', 'module M { struct S<', 'script { fun f() { let ', 'script { fun f() { a(', 'module M { ', 'address 0x1 { ']


def garbage(rng, n):
    ranges = [(32, 126), (0, 31), (128, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)]
    return ''.join(chr(rng.randint(*rng.choice(ranges[:1] * 6 + ranges))) for _ in range(n))


def hostile(rng, large=2000):
    x = rng.random()
    if x < .35:
        return any_text(rng)
    if x < .45:
        return garbage(rng, rng.choice([1, 10, 100]))
    if x < .6:
        return rng.choice(STARTS) + ''.join(rng.choice(UNITS) for _ in range(rng.randint(1, 30)))
    s = rng.choice(STARTS) + rng.choice(UNITS) * rng.choice([10, 100, 300, large])
    return s + rng.choice(['', '}', ') } }', rng.choice(UNITS) * rng.choice([1, 100])])


def reading(ck, label, cases, timeout=30):
    bad = 0
    for c, r in zip(cases, ck.run('read', cases, timeout=timeout)):
        if r.get('ok') is not True:
            bad += 1
            t = ''.join(map(chr, c['s'][:400]))
            ck.violation('reading %r%s did not end well: %s' % (t, ' repeated %d times' % c['n'] if 'n' in c else '', str(r)[:200]),
                         {'part': label, 'case': c, 'got': r})
        else:
            ck.replayed += 1
    ck.part('read ' + label, cases=len(cases), failing=bad)


def servers(ck, n, free):
    """Hostile documents next to others, with requests in between."""
    rng, res = ck.rng, []
    for _ in range(n):
        h = History(rng, utf8=rng.random() < .3)
        docs = ['a', 'b', 'c', 'd'][:rng.randint(2, 4)]
        evil = docs[:rng.randint(1, len(docs) - 1)]
        pools = {d: [hostile(rng, 600) for _ in range(3)] if d in evil else rng.sample(BROKEN, 3) + rng.sample(CLEAN, 1) for d in docs}
        v, asked = 0, []
        for _ in range(rng.randint(3, 8)):
            pairs = []
            for _ in range(rng.choice([1, 1, 2, 3]) if not free else rng.randint(1, 8)):
                d, v = rng.choice(docs), v + 1
                if rng.random() < .3:
                    asked.append(v)
                    pairs.append((request(v, rng.choice(['textDocument/hover', 'textDocument/completion', 'x/y']), {}), None))
                elif d not in h.open:
                    pairs.append(h.m_open(d, v, rng.choice(pools[d])))
                elif rng.random() < .1:
                    pairs.append(h.m_close(d))
                else:
                    pairs.append(h.m_change(d, v, rng.choice(pools[d]), how=rng.choice([0, 1])))
            if free:
                h.free([rng.choice([0, 0, 200]) for _ in pairs], *pairs)
            else:
                h.send(*pairs)
                h.settle()
        v += 1
        asked.append(v)
        h.send((request(v, 'last/request', {}), None))
        h.settle()
        h.asked = asked
        res.append(h)
    return res


def alive(ck, histories, which, label):
    records = []
    for h, r in which:
        messages = [m for t in r['turns'] for m in t['messages']]
        shown = [p['uri'] for t in r['turns'] for p in publications(t)]
        records.append({'asked': h.asked, 'answered': [m['id'] for m in messages if 'id' in m and 'method' not in m],
                        'open': sorted(h.docs(d) for d in h.open), 'shown': sorted(set(shown)), 'ended': any(t['ended'] for t in r['turns'])})
    for b in ck.validate('AliveCases', records, label='judge that they are alive: ' + label):
        h, r = which[b['bad'] - 1]
        ck.violation('%s: the server does not answer or does not publish any more' % label, {'part': label, 'case': h.case(), 'got': records[b['bad'] - 1]})


def check(ck):
    rng = ck.rng
    # all short sequences of tokens everywhere
    n = 2
    const = {'Beginnings': str(len(BEGINNINGS)), 'Vocabulary': str(len(VOCABULARY)), 'MaxLen': str(n)}
    gen = ck.emitted('SoupGen', label='all sequences of %d tokens after every beginning' % n, constants=const, invariants=['Emit'])
    begin = [b + ' ' if b else '' for b in BEGINNINGS]
    reading(ck, 'all sequences of %d tokens after every beginning' % n, [{'s': cps_of(begin[g['b'] - 1] + ' '.join(VOCABULARY[t - 1] for t in g['ts']))} for g in gen])
    for n, k, words in ([(3, None, None)] if ck.thorough else [(3, 12, 22)]):
        picks = rng.sample(begin, k) if k else begin
        vocabulary = rng.sample(VOCABULARY, words) if words else VOCABULARY
        for p in [picks[i:i + 4] for i in range(0, len(picks), 4)]:
            gen = ck.emitted('SoupGen', label='all sequences of %d tokens after some beginnings' % n,
                             constants={'Beginnings': str(len(p)), 'Vocabulary': str(len(vocabulary)), 'MaxLen': str(n)}, invariants=['Emit'])
            reading(ck, 'all sequences of %d tokens' % n, [{'s': cps_of(p[g['b'] - 1] + ' '.join(vocabulary[t - 1] for t in g['ts']))} for g in gen])
    # anything
    texts = [hostile(rng) for _ in range(30000 if ck.thorough else 5000)]
    texts += [soup(rng, 40, .3) for _ in range(10000 if ck.thorough else 2000)]
    texts += [garbage(rng, 30) for _ in range(5000 if ck.thorough else 1000)]
    texts += [write(rng, ws) for ws in texts_of_ways(ck)]
    reading(ck, 'random texts', [{'s': cps_of(t)} for t in texts])
    # long ones: the time allowed is far more than is needed, and far less than anything quadratic takes
    long_ = [{'s': cps_of(s + u), 'n': max(1, m // len(s + u))} for u in UNITS for s in STARTS for m in ([400, 3000, 50000] if s == '' or ck.thorough else [rng.choice([400, 3000, 20000])])]
    long_ += [{'s': cps_of(s + u * m)} for u in UNITS for s in STARTS for m in rng.sample([100, 254, 255, 256, 257, 258, 300, 1000, 2047, 2048, 2049, 2100, 10000], 4 if ck.thorough else 2)]
    reading(ck, 'long and deep texts', long_, timeout=60)
    ck.sample({'long': ''.join(map(chr, long_[-1]['s'][:100]))})
    # in servers
    for free, count in ((False, 1200 if ck.thorough else 250), (True, 800 if ck.thorough else 150)):
        hs = servers(ck, count, free)
        label = 'uncontrolled servers' if free else 'servers'
        which = judge(ck, 'P01', hs, label, timeout=150)
        alive(ck, hs, which, label)
