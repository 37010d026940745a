id = 'field-lookahead'
property = 'P15'
needs = 'a record literal whose field value is a path or a call'
breaks = 'such a record literal is reported as an error'
edits = [('crates/parser/src/grammar/expressions.rs', 'if p.nth_at(1, T![:]) {\n                    name_ref(p);\n                    p.expect(T![:]);\n                }\n                expr(p);',
 'if p.nth_at(1, T![:]) {\n                    name_ref(p);\n                    p.expect(T![:]);\n                    expr_bp(p, 2);\n                } else {\n                    name_ref(p);\n                }')]
deps = ['syntax']
main = '''fn main() {
    for text in ["S { a: b, c }", "S { a: b = c }"] {
        let parse = syntax::SourceFile::parse(&format!("script {{ fun f() {{ {} }} }}", text));
        assert_eq!(parse.errors(), &[]);
    }
}
'''
