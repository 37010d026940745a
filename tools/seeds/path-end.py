id = 'path-end'
property = 'P23'
needs = 'a path that ends with :: before a semicolon'
breaks = 'the text is no program and yet no error is reported'
edits = [('crates/parser/src/grammar/paths.rs', '''            p.err_recover("expected identifier", items::ITEM_RECOVERY_SET);
''', '''            if !p.at(T![;]) {
                p.err_recover("expected identifier", items::ITEM_RECOVERY_SET);
            }
''')]
demo = r'''
c = Client()
a, b = 'file:///w/a.move', 'file:///w/b.move'
c.open(a, 1, 'script { fun f() { let x = a::b; } }')
c.settle(1)
check(not c.publications(a)[-1]['diagnostics'], 'errors in a program')
c.open(b, 1, 'script { fun f() { let x = a::; } }')
c.settle(2)
check(c.publications(b)[-1]['diagnostics'], 'no errors')
c.kill()
'''
