id = 'call-unclosed'
property = 'P23'
needs = 'a call whose closing parenthesis is missing right before the end of the block around it'
breaks = 'the text is no program and yet no error is reported'
edits = [('crates/parser/src/grammar/expressions.rs', '''if !p.at(T![')']) && !p.expect(T![,]) {''', '''if !p.at(T![')']) && !p.eat(T![,]) {''')]
demo = r'''
c = Client()
a, b = 'file:///w/a.move', 'file:///w/b.move'
c.open(a, 1, 'script { fun f() { g(x, y) } }')
c.settle(1)
check(not c.publications(a)[-1]['diagnostics'], 'errors in a program')
c.open(b, 1, 'script { fun f() { g(x, y } }')
c.settle(2)
check(c.publications(b)[-1]['diagnostics'], 'no errors')
c.kill()
'''
