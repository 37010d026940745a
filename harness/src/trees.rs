//! Tokens and syntax trees of texts.
use serde_json::{json, Value};
use syntax::syntax_node::SyntaxNode;
use syntax::{AstNode, SourceFile};

use crate::util::*;

type Walk = rowan::WalkEvent<syntax::syntax_node::SyntaxElement>;

/// The tree from left to right: "o" opens a node, "l" is a leaf, "c" closes the node.
fn walk(root: &SyntaxNode, mut each: impl FnMut(&'static str, String, u32, u32, Option<String>)) {
    for event in root.preorder_with_tokens() {
        match event {
            Walk::Enter(rowan::NodeOrToken::Node(it)) => {
                let range = it.text_range();
                each("o", format!("{:?}", it.kind()), range.start().into(), range.end().into(), None)
            }
            Walk::Enter(rowan::NodeOrToken::Token(it)) => {
                let range = it.text_range();
                let text = it.text().to_string();
                each("l", format!("{:?}", it.kind()), range.start().into(), range.end().into(), Some(text))
            }
            Walk::Leave(rowan::NodeOrToken::Node(it)) => {
                let range = it.text_range();
                each("c", format!("{:?}", it.kind()), range.start().into(), range.end().into(), None)
            }
            Walk::Leave(_) => (),
        }
    }
}

/// {s}: the leaves of the tree, as [kind, number of characters].
pub fn leaves(case: &Value) -> Value {
    let parse = SourceFile::parse(&text(&case["s"]));
    let mut leaves: Vec<Value> = Vec::new();
    walk(parse.tree().syntax(), |what, kind, _, _, text| {
        if what == "l" {
            leaves.push(json!([kind, text.unwrap().chars().count()]));
        }
    });
    leaves.into()
}

fn errors(parse: &syntax::Parse<SourceFile>) -> Value {
    parse
        .errors()
        .iter()
        .map(|it| json!({"msg": it.to_string(), "from": u32::from(it.range().start()), "to": u32::from(it.range().end())}))
        .collect::<Vec<_>>()
        .into()
}

/// {s}: the whole tree and the errors, and whether parsing again gives the same.
pub fn tree(case: &Value) -> Value {
    let s = text(&case["s"]);
    let parse = SourceFile::parse(&s);
    let mut events: Vec<Value> = Vec::new();
    walk(parse.tree().syntax(), |what, kind, from, to, text| {
        let text = text.map_or(json!([]), |it| code_points(&it));
        events.push(json!({"e": what, "k": kind, "from": from, "to": to, "t": text}))
    });
    let again = SourceFile::parse(&s);
    let same = again == parse && again.debug_dump() == parse.debug_dump();
    json!({"events": events, "errors": errors(&parse), "same": same})
}

/// {s, plain?}: the tree without white space and comments, as [what, kind or text], and the errors,
/// each with the number of tokens that are not white space or comments before it.
pub fn skeleton(case: &Value) -> Value {
    let s = text(&case["s"]);
    let parse = SourceFile::parse(&s);
    let mut events: Vec<Value> = Vec::new();
    let mut ends: Vec<u32> = Vec::new();
    walk(parse.tree().syntax(), |what, kind, _, to, text| match what {
        "l" if kind == "WHITESPACE" || kind == "COMMENT" => (),
        "l" => {
            ends.push(to);
            events.push(json!([what, kind, text.unwrap()]))
        }
        _ => events.push(json!([what, kind])),
    });
    let errors = parse
        .errors()
        .iter()
        .map(|it| {
            let at = u32::from(it.range().start());
            json!([it.to_string(), ends.iter().filter(|&&end| end <= at).count()])
        })
        .collect::<Vec<_>>();
    json!({ "tree": events, "errors": errors })
}

/// {s, n?}: reads the text (repeated n times); only whether that ends matters.
pub fn read(case: &Value) -> Value {
    let mut s = text(&case["s"]);
    if let Some(n) = case["n"].as_u64() {
        s = s.repeat(n as usize);
    }
    let parse = SourceFile::parse(&s);
    json!(parse.syntax_node().text().len() == (s.len() as u32).into())
}
