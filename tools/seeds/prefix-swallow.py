id = 'prefix-swallow'
property = 'P15'
needs = 'a prefix operator in front of a product'
breaks = 'the operand of the prefix operator is the whole product'
edits = [('crates/parser/src/grammar/expressions.rs', '    expr_bp(p, 255);', '    expr_bp(p, 11);')]
deps = ['syntax']
main = '''fn main() {
    let parse = syntax::SourceFile::parse("script { fun f() { -a * b } }");
    let node = parse.syntax_node();
    let pre = node.descendants().find(|it| it.kind() == syntax::SyntaxKind::PREFIX_EXPR).unwrap();
    assert_eq!(pre.text().to_string(), "-a");
}
'''
