id = 'bom-stripped'
property = 'P14'
needs = 'a text that starts with a byte order mark'
breaks = 'the tree lacks the mark, and everything in it is three bytes off'
edits = [('crates/syntax/src/lib.rs', '        let (green, mut errors) = parsing::parse_text(text);\n        let root = SyntaxNode::new_root(green.clone());\n\n        // if cfg',
"        let text = text.strip_prefix('\\u{feff}').unwrap_or(text);\n        let (green, mut errors) = parsing::parse_text(text);\n        let root = SyntaxNode::new_root(green.clone());\n\n        // if cfg")]
deps = ['syntax']
main = '''fn main() {
    let text = "\\u{feff}script {}";
    assert_eq!(syntax::SourceFile::parse(text).syntax_node().text().to_string(), text);
}
'''
