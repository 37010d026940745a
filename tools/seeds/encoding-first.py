id = 'encoding-first'
property = 'P04'
needs = 'a client that offers utf-8 as an encoding, but not as the first one'
breaks = 'the server uses UTF-16 columns and does not announce utf-8, although the client offers it'
edits = [('crates/move_language_server/src/lsp_ext.rs', 'caps.offset_encoding.as_deref().unwrap_or_default().iter().any(|it| it == "utf-8")',
 'caps.offset_encoding.as_deref().unwrap_or_default().first().map_or(false, |it| it == "utf-8")')]
demo = r'''
for caps, want in [({}, None), ({'offsetEncoding': ['utf-8', 'utf-16']}, 'utf-8'), ({'offsetEncoding': ['utf-16', 'utf-8']}, 'utf-8'), ({'offsetEncoding': ['utf-16']}, None)]:
    c = Client(caps)
    got = c.init['result'].get('offsetEncoding')
    c.kill()
    check(got == want, '%s: %s' % (caps, got))
'''
