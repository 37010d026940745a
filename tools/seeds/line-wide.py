id = 'line-wide'
property = 'P17'
needs = 'a line with a non-ASCII character beyond its first 65536 bytes'
breaks = 'the column of what follows that character is converted wrongly'
edits = [('crates/ide_db/src/line_index.rs', 'utf16_chars.push(Utf16Char { start: curr_col, end: curr_col + c_len });',
'''// Such columns are of no use to anyone; keep the table small.
                if u32::from(curr_col) <= u32::from(u16::MAX) {
                    utf16_chars.push(Utf16Char { start: curr_col, end: curr_col + c_len });
                }''')]
deps = ['ide_db']
main = '''use ide_db::{LineCol, LineColUtf16, LineIndex};
fn main() {
    let index = LineIndex::new(&format!("{}\\u{e9}x", "a".repeat(70000)));
    assert_eq!(index.to_utf16(LineCol { line: 0, col: 70002 }), LineColUtf16 { line: 0, col: 70001 });
}
'''
