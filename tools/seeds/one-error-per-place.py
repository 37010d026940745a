id = 'one-error-per-place'
property = 'P18'
needs = 'two syntax errors at the same place'
breaks = 'only the first of them becomes a diagnostic'
edits = [('crates/ide_diagnostics/src/lib.rs', '        parse.errors().iter().take(128).map(|err| {', '        parse.errors().iter().filter(|err| seen.insert(err.range())).take(128).map(|err| {'),
('crates/ide_diagnostics/src/lib.rs', '    let mut res = Vec::new();\n', '    let mut res = Vec::new();\n    // what follows the first error in a place is usually a consequence of it\n    let mut seen = FxHashSet::default();\n')]
deps = ['ide', 'ide_db', 'vfs', 'syntax']
main = '''use ide_db::base_db::{Change, FileId, SourceRoot, VfsPath};
use std::sync::Arc;
fn main() {
    let text = "module { fun ";
    let mut host = ide::AnalysisHost::new();
    let mut set = vfs::file_set::FileSet::default();
    set.insert(FileId(0), VfsPath::new_virtual_path("/a.move".to_string()));
    let mut change = Change::new();
    change.set_roots(vec![SourceRoot::new_local(set)]);
    change.change_file(FileId(0), Some(Arc::new(text.to_string())));
    host.apply_change(change);
    let errors = syntax::SourceFile::parse(text).errors().len();
    assert!(errors > 1);
    assert_eq!(host.analysis().diagnostics(FileId(0)).unwrap().len(), errors);
}
'''
