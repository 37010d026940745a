//! The store of diagnostics.
use move_language_server::verif;
use serde_json::{json, Value};

use crate::util::*;

fn diagnostic(d: &Value) -> lsp_types::Diagnostic {
    use lsp_types::*;
    let n = |key: &str| d[key].as_u64().unwrap() as u32;
    Diagnostic {
        range: Range::new(Position::new(n("l"), n("c")), Position::new(n("el"), n("ec"))),
        severity: match n("sev") {
            0 => None,
            1 => Some(DiagnosticSeverity::Error),
            2 => Some(DiagnosticSeverity::Warning),
            _ => Some(DiagnosticSeverity::Hint),
        },
        source: Some(str_(d, "src").to_string()),
        message: str_(d, "msg").to_string(),
        code: Some(NumberOrString::String(str_(d, "id").to_string())),
        ..Default::default()
    }
}

/// {ops: [..], files: n}: the diagnostics of every file after each operation (their ids, kept in the
/// field `code`), and what `take` returned.
pub fn diagstore(case: &Value) -> Value {
    let mut store = verif::Diagnostics::default();
    let files = int(case, "files") as u32;
    let mut res = Vec::new();
    for op in arr(case, "ops") {
        let mut obs = json!({});
        match str_(op, "op") {
            "native" => store.set_native(
                int(op, "f") as u32,
                arr(op, "ds").iter().map(diagnostic).collect(),
            ),
            "check" => store.add_check(int(op, "f") as u32, diagnostic(&op["d"])),
            "clear" => store.clear_check(),
            "take" => {
                let taken = store.take_changes();
                obs["none"] = taken.is_none().into();
                let mut taken = taken.unwrap_or_default();
                taken.sort();
                obs["taken"] = taken.into();
            }
            other => panic!("no operation {}", other),
        }
        obs["shown"] = (0..files)
            .map(|f| {
                store
                    .diagnostics_for(f)
                    .into_iter()
                    .map(|d| match d.code {
                        Some(lsp_types::NumberOrString::String(it)) => it,
                        _ => "?".to_string(),
                    })
                    .collect::<Vec<_>>()
            })
            .map(Value::from)
            .collect::<Vec<_>>()
            .into();
        res.push(obs);
    }
    res.into()
}
