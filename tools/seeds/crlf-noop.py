id = 'crlf-noop'
property = 'P01'
needs = 'an edit that only turns line feeds into CR LF (or back), processed while the diagnostics of the preceding edit are still being computed'
breaks = 'applying the edit cancels the running computation, and no new one is started because the analysed text is the same: the diagnostics stay those of an older text'
edits = [('crates/move_language_server/src/global_state.rs', 'use ide_db::base_db::{Change, FileId};', 'use ide_db::base_db::{Change, FileId, SourceDatabase};'),
('crates/move_language_server/src/global_state.rs', '        let mut has_structure_changes = false;\n', '        let mut has_structure_changes = false;\n        let mut has_text_changes = false;\n'),
('crates/move_language_server/src/global_state.rs', '                change.change_file(file.file_id, text);', '''                has_text_changes |= match &text {
                    Some(text) if !file.is_created_or_deleted() => {
                        self.analysis_host.raw_database().file_text(file.file_id) != *text
                    }
                    _ => true,
                };
                change.change_file(file.file_id, text);'''),
('crates/move_language_server/src/global_state.rs', '        self.analysis_host.apply_change(change);\n        true\n', '        self.analysis_host.apply_change(change);\n        // Changes of the line ends alone are not visible to the analysis.\n        has_text_changes\n')]
demo = r'''
c = Client()
a = 'file:///w/a.move'
big = 'script {\n fun x() {\n' + '  1 + 2 * 3;\n' * 3000
for k in range(4):
    bad, good = big + '\n', big + '}\n}\n'
    c.open(a, 1, bad)
    c.settle(6)
    check(c.publications(a)[-1]['diagnostics'] != [], 'no problem is reported for a broken text')
    c.change(a, 2, [good])
    c.change(a, 3, [good.replace('\n', '\r\n')])
    c.settle(6)
    check(c.publications(a)[-1]['diagnostics'] == [], 'the problems of an older text are still shown: %s' % c.publications(a)[-1])
    c.close(a)
    a = 'file:///w/a%d.move' % k
c.kill()
'''
