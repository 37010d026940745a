id = 'number-field'
property = 'P23'
needs = 'a number as the name of a field of a record'
breaks = 'the text is no program and yet no error is reported'
edits = [('crates/parser/src/grammar.rs', '''        p.err_and_bump("expected identifier");
''', '''        p.bump_any();
''')]
demo = r'''
c = Client()
a, b = 'file:///w/a.move', 'file:///w/b.move'
c.open(a, 1, 'script { fun f() { S { x: 1 } } }')
c.settle(1)
check(not c.publications(a)[-1]['diagnostics'], 'errors in a program')
c.open(b, 1, 'script { fun f() { S { x: 1, 0: 1 } } }')
c.settle(2)
check(c.publications(b)[-1]['diagnostics'], 'no errors')
c.kill()
'''
