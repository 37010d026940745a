id = 'crlf-lone-cr'
property = 'P06'
needs = 'a document with a carriage return that is not followed by a line feed before a CR LF pair'
breaks = 'the pairs after the lone carriage return keep their carriage return, and are reported as errors'
edits = [('crates/move_language_server/src/line_index.rs', "            src.windows(2).position(|it| it == b\"\\r\\n\")",
"            let idx = src.iter().position(|&it| it == b'\\r')?;\n            (src.get(idx + 1) == Some(&b'\\n')).then(|| idx)")]
demo = r'''
c = Client()
a, b = 'file:///w/a.move', 'file:///w/b.move'
c.open(a, 1, 'script {\n\r}\n\n')
c.open(b, 1, 'script {\r\n\r}\r\n\r\n')
c.settle(1.5)
da, db = c.publications(a)[-1]['diagnostics'], c.publications(b)[-1]['diagnostics']
c.kill()
check(da == db, 'LF gives %s, CR LF gives %s' % (da, db))
'''
