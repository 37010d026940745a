id = 'bitops-order'
property = 'P15'
needs = 'an expression with both ^ and &'
breaks = '^ binds tighter than &'
edits = [('crates/parser/src/grammar/expressions.rs', 'T![^]                  => (7,  T![^]),', 'T![^]                  => (8,  T![^]),'),
('crates/parser/src/grammar/expressions.rs', 'T![&]                  => (8,  T![&]),', 'T![&]                  => (7,  T![&]),')]
deps = ['syntax']
main = '''fn main() {
    let parse = syntax::SourceFile::parse("script { fun f() { a ^ b & c } }");
    let node = parse.syntax_node();
    let bin = node.descendants().find(|it| it.kind() == syntax::SyntaxKind::BIN_EXPR).unwrap();
    assert_eq!(bin.first_child().unwrap().text().to_string(), "a");
}
'''
