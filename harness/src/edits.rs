//! Edits of texts.
use move_language_server::verif;
use serde_json::Value;

use crate::util::*;

fn change_event(change: &Value) -> lsp_types::TextDocumentContentChangeEvent {
    let range = change.get("range").and_then(|it| it.as_array()).filter(|it| !it.is_empty());
    let pos = |r: &[Value], i: usize| {
        lsp_types::Position::new(r[i].as_u64().unwrap() as u32, r[i + 1].as_u64().unwrap() as u32)
    };
    lsp_types::TextDocumentContentChangeEvent {
        range: range.map(|r| lsp_types::Range::new(pos(r, 0), pos(r, 2))),
        range_length: None,
        text: text(&change["text"]),
    }
}

/// {s, utf8?, batches: [[{range: [] or [l, c, l, c], text}]]}: the text after each batch.
pub fn edits(case: &Value) -> Value {
    let mut s = text(&case["s"]);
    let mut res = Vec::new();
    for batch in arr(case, "batches") {
        let changes = batch.as_array().unwrap().iter().map(change_event).collect();
        verif::apply_document_changes(&mut s, changes, case["utf8"].as_bool().unwrap_or(false));
        res.push(code_points(&s));
    }
    res.into()
}
