//! Line ends of texts.
use move_language_server::verif;
use serde_json::{json, Value};

use crate::util::*;

/// {s}: the text with LF line ends, and whether it counts as CRLF.
pub fn lineends(case: &Value) -> Value {
    let (text, dos) = verif::normalize(text(&case["s"]));
    // the result of unsafe surgery must still be a valid text
    assert!(std::str::from_utf8(text.as_bytes()).is_ok());
    json!({"text": code_points(&text), "dos": dos})
}
