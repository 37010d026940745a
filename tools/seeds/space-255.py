id = 'space-255'
property = 'P13'
needs = 'more than 255 blanks or line feeds in a row'
breaks = 'white space comes in pieces'
edits = [('crates/parser/src/lexer.rs', '''            let mut num_space_chars = 1;
            loop {''', '''            let mut num_space_chars = 1;
            while num_space_chars < 255 {''')]
deps = ['syntax']
main = '''fn main() {
    let text = format!("// c\\n{}module M {{}}", "    \\n".repeat(80));
    let parse = syntax::SourceFile::parse(&text);
    let blanks = parse
        .syntax_node()
        .descendants_with_tokens()
        .filter_map(|it| it.into_token())
        .filter(|it| it.text().trim().is_empty() && it.text().len() > 1)
        .count();
    assert_eq!(blanks, 1);
}
'''
