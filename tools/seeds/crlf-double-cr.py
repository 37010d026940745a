id = 'crlf-double-cr'
property = 'P06'
needs = 'two carriage returns in front of a line feed'
breaks = 'the carriage return of that CR LF pair is kept'
edits = [('crates/move_language_server/src/line_index.rs', "            src.windows(2).position(|it| it == b\"\\r\\n\")",
"""            let mut from = 0;
            loop {
                let idx = from + src[from..].iter().position(|&it| it == b'\\r')?;
                match src.get(idx + 1)? {
                    b'\\n' => return Some(idx),
                    _ => from = idx + 2,
                }
            }""")]
demo = r'''
c = Client()
a, b = 'file:///w/a.move', 'file:///w/b.move'
c.open(a, 1, 'module M {\n \r\n\n }')
c.open(b, 1, 'module M {\n \r\r\n\n }')
c.settle(1.5)
da, db = c.publications(a)[-1]['diagnostics'], c.publications(b)[-1]['diagnostics']
c.kill()
# a: a pair, so no error; b: a lone carriage return and a pair
check(len(da) == 0, 'a: %s' % da)
check(len(db) == 1, 'b: %s' % db)
'''
