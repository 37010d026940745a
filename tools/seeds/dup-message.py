id = 'dup-message'
property = 'P22'
needs = 'an edit after which an error stands at the same range with another message'
breaks = 'diagnostics that differ only in their message count as equal, so the new ones are not reported'
edits = [('crates/move_language_server/src/diagnostics.rs', '''        && left.range == right.range
        && left.message == right.message''', '''        && left.code == right.code
        && left.range == right.range''')]
demo = r'''
c = Client()
a = 'file:///w/a.move'
texts = ['script { struct A; fun ) }', 'script { struct A { ) } }', 'script { fun main() { ( ; } }', 'script { fun main( ; ) { } }']
import itertools
seen = {}
v = 0
for t in texts:
    fresh = Client()
    fresh.open(a, 1, t)
    fresh.settle(1)
    seen[t] = fresh.publications(a)[-1]['diagnostics']
    fresh.kill()
pairs = [('script { fun main() { let ; } }', 'script { fun main() { S.   ; } }')]
def diags(t):
    f = Client(); f.open(a, 1, t); f.settle(.7); d = f.publications(a)[-1]['diagnostics']; f.kill(); return d
import re
cands = ['script {fun f(){let (', 'script {fun f(){a.;;.', 'module M {struct S {a}}', 'module M {struct S {a:}}', 'module M {struct S {:}}',
         'module M {fun f(a){}}', 'module M {fun f(a:){}}', 'script', 'module', 'module M', 'address', 'address {', 'address 0x1',
         'module M {fun f(', 'module M {fun f{', 'module M {fun f)', 'module M {struct S<', 'module M {struct S}', 'module M {struct;}', 'module M {struct:}', 'module M {fun:', 'module M {fun f']
ds = {t: diags(t) for t in cands}
key = lambda d: [(x['range']['start'], x['range']['end'], x['severity']) for x in d]
found = [(s, t) for s in cands for t in cands if ds[s] != ds[t] and key(ds[s]) == key(ds[t])]
check(found, 'no pair of texts to try')
s, t = found[0]
c.open(a, 1, s)
c.settle(1)
c.change(a, 2, [t])
c.settle(1)
d = c.publications(a)[-1]['diagnostics']
c.kill()
check(d == ds[t], '%r then %r: %s' % (s, t, d))
'''
