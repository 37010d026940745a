id = 'utf16-start'
property = 'P17'
needs = 'a position right in front of a non-ASCII character, in UTF-16 columns'
breaks = 'it is converted to the position behind that character'
edits = [('crates/ide_db/src/line_index.rs', 'if col > u32::from(c.start) {', 'if col >= u32::from(c.start) && c.len_utf16() == 2 || col > u32::from(c.start) {')]
deps = ['ide_db']
main = '''use ide_db::{LineCol, LineColUtf16, LineIndex};
fn main() {
    let index = LineIndex::new("a\\u{1f600}\\u{1f601}b");
    for (col, utf16) in [(0, 0), (1, 1), (5, 3), (9, 5), (10, 6)] {
        assert_eq!(index.to_utf16(LineCol { line: 0, col }), LineColUtf16 { line: 0, col: utf16 });
        assert_eq!(index.to_utf8(LineColUtf16 { line: 0, col: utf16 }), LineCol { line: 0, col });
    }
}
'''
