id = 'record-pat-brace'
property = 'P07'
needs = 'a left brace where a field is expected in a record pattern'
breaks = 'the parser makes no progress there and the computation panics: no diagnostics for any open document'
edits = [('crates/parser/src/grammar/patterns.rs', '''T!['{'] => error_block(p, "expected ident"),''', '''T!['{'] => p.error("expected ident"),''')]
demo = r'''
c = Client()
a, b = 'file:///w/a.move', 'file:///w/b.move'
c.open(a, 1, 'script { fun f() { let S { x: y } = z; } }')
c.settle(0.5)
c.open(b, 1, 'script { fun f() { let S { x: y, {} } = z; } }')
c.settle(2)
check(c.publications(b), 'no diagnostics')
c.change(a, 2, ['script {'])
c.settle(2)
check(c.publications(a)[-1]['version'] == 2, 'no diagnostics for the other document')
c.kill()
'''
