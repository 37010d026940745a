//! The analysis library: answers, incremental changes, snapshots.
use std::sync::Arc;

use serde_json::{json, Value};

use crate::util::*;
use base_db::{Change, FileId, SourceRoot};
use ide::{Analysis, AnalysisHost};
use vfs::file_set::FileSet;
use vfs::VfsPath;

/// A fresh analysis of one file.
pub fn single(text: &str) -> (Analysis, FileId) {
    let file = FileId(0);
    let mut set = FileSet::default();
    set.insert(file, VfsPath::new_virtual_path("/main.move".to_string()));
    let mut change = Change::new();
    change.set_roots(vec![SourceRoot::new_local(set)]);
    change.change_file(file, Some(Arc::new(text.to_string())));
    let mut host = AnalysisHost::new();
    host.apply_change(change);
    (host.analysis(), file)
}

/// {s, raw?}: the syntax errors of the text, and the diagnostics the library makes of them.
pub fn errors(case: &Value) -> Value {
    let text = text(&case["s"]);
    let range = |it: syntax::TextRange| (u32::from(it.start()), u32::from(it.end()));
    let parse = syntax::SourceFile::parse(&text);
    let errors = parse
        .errors()
        .iter()
        .map(|it| {
            let (from, to) = range(it.range());
            json!({"msg": it.to_string(), "from": from, "to": to})
        })
        .collect::<Vec<_>>();
    let (analysis, file) = single(&text);
    let diags = analysis
        .diagnostics(file)
        .unwrap()
        .into_iter()
        .map(|d| {
            let (from, to) = range(d.range);
            let severity = match d.severity {
                ide_diagnostics::Severity::Error => "error",
                ide_diagnostics::Severity::WeakWarning => "hint",
            };
            assert!(!d.unused && !d.experimental);
            json!({"msg": d.message, "from": from, "to": to, "severity": severity, "code": d.code.as_str()})
        })
        .collect::<Vec<_>>();
    json!({"errors": errors, "diags": diags})
}

pub fn hash(it: &str) -> String {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let mut hasher = DefaultHasher::new();
    it.hash(&mut hasher);
    format!("{:016x}", hasher.finish())
}

pub fn shown_diagnostics(diags: Vec<ide_diagnostics::Diagnostic>) -> String {
    diags
        .into_iter()
        .map(|d| format!("{:?} {} {:?}\n", d.range, d.message, d.severity))
        .collect()
}

fn shown_lines(index: &ide_db::LineIndex, text: &str) -> String {
    let mut res = String::new();
    for (offset, _) in text.char_indices() {
        let at = index.line_col((offset as u32).into());
        res += &format!("{}:{}:{} ", at.line, at.col, index.to_utf16(at).col);
    }
    res
}

/// What the library says about a text, question by question (hashed, but for the text).
fn answer(host: &AnalysisHost, analysis: Option<&Analysis>, kind: &str, file: FileId) -> Value {
    use ide_db::LineIndexDatabase;
    use base_db::SourceDatabase;
    use syntax::AstNode;
    let db = host.raw_database();
    let fresh;
    let analysis = match analysis {
        Some(it) => it,
        None => {
            fresh = host.analysis();
            &fresh
        }
    };
    match kind {
        "text" => hash(&db.file_text(file)).into(),
        "tree" => {
            let parse = db.parse(file);
            hash(&format!("{:#?}", parse.tree().syntax())).into()
        }
        "errors" => hash(&format!("{:?}", db.parse(file).errors())).into(),
        "diags" => hash(&shown_diagnostics(analysis.diagnostics(file).unwrap())).into(),
        "lines" => hash(&shown_lines(&db.line_index(file), &db.file_text(file))).into(),
        "index" => hash(&shown_lines(&analysis.file_line_index(file).unwrap(), &db.file_text(file))).into(),
        it => panic!("no question {}", it),
    }
}

/// {s}: the answers about the text.
pub fn facts(case: &Value) -> Value {
    let text = text(&case["s"]);
    let file = FileId(0);
    let mut set = FileSet::default();
    set.insert(file, VfsPath::new_virtual_path("/main.move".to_string()));
    let mut change = Change::new();
    change.set_roots(vec![SourceRoot::new_local(set)]);
    change.change_file(file, Some(Arc::new(text)));
    let mut host = AnalysisHost::new();
    host.apply_change(change);
    let mut res = serde_json::Map::new();
    for kind in &["text", "tree", "errors", "diags", "lines", "index"] {
        res.insert(kind.to_string(), answer(&host, None, kind, file));
    }
    res.into()
}

fn partition(roots: &Value, paths: &[String]) -> Vec<SourceRoot> {
    roots
        .as_array()
        .unwrap()
        .iter()
        .map(|root| {
            let mut set = FileSet::default();
            for file in arr(root, "files") {
                let file = file.as_u64().unwrap() as u32;
                set.insert(FileId(file), VfsPath::new_virtual_path(paths[file as usize].clone()));
            }
            if root["lib"].as_bool().unwrap() {
                SourceRoot::new_library(set)
            } else {
                SourceRoot::new_local(set)
            }
        })
        .collect()
}

fn shown_roots(host: &AnalysisHost, n: usize) -> Value {
    use base_db::{SourceDatabase, SourceRootId};
    let db = host.raw_database();
    let sorted = |it: Arc<rustc_hash::FxHashSet<SourceRootId>>| {
        let mut it = it.iter().map(|it| it.0).collect::<Vec<_>>();
        it.sort();
        it
    };
    let roots = (0..n as u32)
        .map(|id| {
            let root = db.source_root(SourceRootId(id));
            let mut files = root
                .iter()
                .map(|it| {
                    let path = root.path_for_file(&it).unwrap();
                    assert_eq!(root.file_for_path(path), Some(&it));
                    (it.0, path.to_string())
                })
                .collect::<Vec<_>>();
            files.sort();
            json!({"lib": root.is_library, "files": files})
        })
        .collect::<Vec<_>>();
    json!({"roots": roots, "local": sorted(db.local_roots()), "library": sorted(db.library_roots())})
}

/// {texts, paths, lru?, ops}: a history of {"roots"?, "files": [[file, text number or null]..]} and
/// {"ask": [[kind, file]..], "via": "host" | "snapshot"} and {"where": [file..], "roots": n}.
pub fn incremental(case: &Value) -> Value {
    use base_db::SourceDatabase;
    let texts = arr(case, "texts").iter().map(text).collect::<Vec<_>>();
    let paths = arr(case, "paths").iter().map(|it| it.as_str().unwrap().to_string()).collect::<Vec<_>>();
    let mut host = AnalysisHost::new();
    if let Some(lru) = case["lru"].as_u64() {
        host.raw_database_mut().update_lru_capacity(Some(lru as usize));
    }
    let mut res = Vec::new();
    for op in arr(case, "ops") {
        if let Some(questions) = op["ask"].as_array() {
            let snapshot = match str_(op, "via") {
                "snapshot" => Some(host.analysis()),
                _ => None,
            };
            let answers = questions
                .iter()
                .map(|it| {
                    let file = FileId(it[1].as_u64().unwrap() as u32);
                    answer(&host, snapshot.as_ref(), it[0].as_str().unwrap(), file)
                })
                .collect::<Vec<_>>();
            res.push(answers.into());
        } else if let Some(files) = op["where"].as_array() {
            let db = host.raw_database();
            let owners = files
                .iter()
                .map(|it| db.file_source_root(FileId(it.as_u64().unwrap() as u32)).0)
                .collect::<Vec<_>>();
            res.push(json!({"owners": owners, "all": shown_roots(&host, op["count"].as_u64().unwrap() as usize)}));
        } else {
            let mut change = Change::new();
            if op["roots"].is_array() {
                change.set_roots(partition(&op["roots"], &paths));
            }
            for it in arr(op, "files") {
                let text = it[1].as_u64().map(|it| Arc::new(texts[it as usize].clone()));
                change.change_file(FileId(it[0].as_u64().unwrap() as u32), text);
            }
            if op["cancel"].as_bool() == Some(true) {
                host.request_cancellation();
            }
            host.apply_change(change);
        }
    }
    res.into()
}

/// Line and column of a byte of the text.
fn place(text: &str, utf8: bool, offset: usize) -> (usize, usize) {
    let start = text[..offset].rfind('\n').map_or(0, |it| it + 1);
    let line = text[..start].matches('\n').count();
    let before = &text[start..offset];
    (line, if utf8 { before.len() } else { before.encode_utf16().count() })
}

/// {s, utf8, raw?}: the diagnostics of the text as they should be shown, from a fresh analysis.
pub fn diags(case: &Value) -> Value {
    let utf8 = case["utf8"].as_bool().unwrap_or(false);
    let mut text = text(&case["s"]);
    if !case["raw"].as_bool().unwrap_or(false) {
        text = text.replace("\r\n", "\n");
    }
    let (analysis, file) = single(&text);
    analysis
        .diagnostics(file)
        .unwrap()
        .into_iter()
        .map(|d| {
            let at = [place(&text, utf8, d.range.start().into()), place(&text, utf8, d.range.end().into())];
            let severity = match d.severity {
                ide_diagnostics::Severity::Error => 1,
                ide_diagnostics::Severity::WeakWarning => 4,
            };
            json!([at[0].0, at[0].1, at[1].0, at[1].1, severity, d.message])
        })
        .collect::<Vec<_>>()
        .into()
}
