id = 'removed-keeps-text'
property = 'P11'
needs = 'a file that is removed, in a change after the one that gave its text'
breaks = 'the removed file still reads as its last text'
edits = [('crates/base_db/src/change.rs', '''            // XXX: can't actually remove the file, just reset the text
            let text = text.unwrap_or_default();
            db.set_file_text_with_durability(file_id, text, durability)''', '''            // XXX: can't actually remove the file; nobody asks for its text
            if let Some(text) = text {
                db.set_file_text_with_durability(file_id, text, durability)
            }''')]
deps = ['ide', 'ide_db', 'vfs']
main = '''use ide_db::base_db::{Change, FileId, SourceRoot, VfsPath};
use std::sync::Arc;
fn main() {
    let mut host = ide::AnalysisHost::new();
    let mut set = vfs::file_set::FileSet::default();
    set.insert(FileId(0), VfsPath::new_virtual_path("/a.move".to_string()));
    let mut change = Change::new();
    change.set_roots(vec![SourceRoot::new_local(set)]);
    change.change_file(FileId(0), Some(Arc::new("script {".to_string())));
    host.apply_change(change);
    assert_eq!(host.analysis().diagnostics(FileId(0)).unwrap().len(), 1);
    let mut change = Change::new();
    change.change_file(FileId(0), None);
    host.apply_change(change);
    assert_eq!(host.analysis().diagnostics(FileId(0)).unwrap().len(), 0);
}
'''
