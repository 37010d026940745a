id = 'trailing-trivia'
property = 'P14'
needs = 'a text that ends with more than one comment after its last item'
breaks = 'the tree does not have the text after the first of these comments and the white space around it'
edits = [('crates/syntax/src/parsing/text_tree_sink.rs', '''        match mem::replace(&mut self.state, State::Normal) {
            State::PendingFinish => {
                self.eat_trivias();''', '''        match mem::replace(&mut self.state, State::Normal) {
            State::PendingFinish => {
                // white space, a comment and white space again
                let n = self.tokens[self.token_pos..].iter().take(3);
                let n = n.take_while(|it| it.kind.is_trivia()).count();
                self.eat_n_trivias(n);''')]
deps = ['syntax']
main = '''fn main() {
    for text in ["script {}\\n// a\\n", "script {}\\n// a\\n// b\\n// c\\n\\n// d"] {
        assert_eq!(syntax::SourceFile::parse(text).syntax_node().text().to_string(), text);
    }
}
'''
