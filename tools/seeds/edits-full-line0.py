id = 'edits-full-line0'
property = 'P05'
needs = 'one change notification with a whole-text change followed by a ranged change on the first line, whose text before the whole-text change had other non-ASCII characters than the new one'
breaks = 'the ranged change is located with the wide characters of the old first line, so it lands at a wrong place'
edits = [('crates/move_language_server/src/lsp_utils.rs', '                index_valid = IndexValid::UpToLineExclusive(0);',
'                // The first line starts at 0 in any text.\n                index_valid = IndexValid::UpToLineExclusive(1);')]
demo = r'''
c = Client()
a, b = 'file:///w/a.move', 'file:///w/b.move'
c.open(a, 1, '// \u00e9\u00e9\u00e9 \U0001f600\n')
c.settle(0.5)
c.change(a, 2, ['script { fun ( } )', {'range': {'start': {'line': 0, 'character': 13}, 'end': {'line': 0, 'character': 18}}, 'text': 'x() {} }'}])
c.open(b, 1, 'script { fun x() {} }')
c.settle(1.5)
da, db = c.publications(a)[-1]['diagnostics'], c.publications(b)[-1]['diagnostics']
c.kill()
check(da == db, 'after the edits %s, for that text %s' % (da, db))
'''
