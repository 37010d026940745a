id = 'newline-call'
property = 'P16'
needs = 'a line break between a callee and its arguments'
breaks = 'the call is read as two expressions'
edits = [('crates/parser/src/grammar/expressions.rs', '    loop {\n        lhs = match p.current() {', '''    loop {
        // A parenthesis on a line of its own belongs to the next statement.
        if p.at(T!['(']) && p.lexer.starts_line() {
            break;
        }
        lhs = match p.current() {'''),
('crates/parser/src/lexer.rs', '    pub fn current_text(&self) -> &str {', '''    /// Tells whether there is only white space before the current token on its line.
    pub fn starts_line(&self) -> bool {
        self.text[..self.cur_start].trim_end_matches(|c| c == ' ' || c == '\\t').ends_with('\\n')
    }

    pub fn current_text(&self) -> &str {''')]
deps = ['syntax']
main = '''fn main() {
    let calls = |text: &str| syntax::SourceFile::parse(text).syntax_node().descendants().filter(|it| it.kind() == syntax::SyntaxKind::CALL_EXPR).count();
    assert_eq!(calls("script { fun f() { g(x); } }"), 1);
    assert_eq!(calls("script { fun f() { g\\n(x); } }"), 1);
}
'''
