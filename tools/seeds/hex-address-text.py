id = 'comment-lookahead'
property = 'P16'
needs = 'a comment between the name of a record pattern and its brace'
breaks = 'the record pattern is read as a plain name'
edits = [('crates/parser/src/grammar/patterns.rs', "        IDENT => match p.nth(1) {\n            // record_pat\n            T!['{'] =>", "        IDENT => match p.lexer.following() {\n            // record_pat\n            T!['{'] =>"),
('crates/parser/src/lexer.rs', '    pub fn current_text(&self) -> &str {', '''    /// The kind of the token after the current one and the white space.
    pub fn following(&self) -> SyntaxKind {
        find_token(self.text[self.cur_end..].trim_start()).0
    }

    pub fn current_text(&self) -> &str {''')]
deps = ['syntax']
main = '''fn main() {
    for gap in ["", " ", "\\n", " // c\\n"] {
        let parse = syntax::SourceFile::parse(&format!("script {{ fun f() {{ let S{}{{ a: b }} = c; }} }}", gap));
        assert_eq!(parse.errors(), &[], "{:?}", gap);
    }
}
'''
