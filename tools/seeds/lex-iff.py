id = 'lex-iff'
property = 'P13'
needs = 'the operator <==> in a text'
breaks = 'it is read as <= and => instead of as one token'
edits = [('crates/parser/src/lexer.rs', '''            if text.starts_with("<==>") {
                (LT_EQ_EQ_GT, 4)
            } else if text.starts_with("<=") {
                (LT_EQ, 2)
            } else if''', '''            if text.starts_with("<=") {
                (LT_EQ, 2)
            } else if text.starts_with("<==>") {
                (LT_EQ_EQ_GT, 4)
            } else if''')]
deps = ['syntax']
main = '''fn main() {
    let parse = syntax::SourceFile::parse("<==>");
    let n = parse.syntax_node().descendants_with_tokens().filter_map(|it| it.into_token()).count();
    assert_eq!(n, 1);
}
'''
