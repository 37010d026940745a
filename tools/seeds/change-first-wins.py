id = 'change-first-wins'
property = 'P11'
needs = 'one change that gives two texts for the same file'
breaks = 'the first text stays, although the second is the final one'
edits = [('crates/base_db/src/change.rs', '        self.files_changed.push((file_id, new_text))', '''        // One entry per file is enough.
        if self.files_changed.iter().all(|(it, _)| *it != file_id) {
            self.files_changed.push((file_id, new_text))
        }''')]
deps = ['ide', 'ide_db', 'vfs']
main = '''use ide_db::base_db::{Change, FileId, SourceRoot, VfsPath};
use std::sync::Arc;
fn main() {
    let mut host = ide::AnalysisHost::new();
    let mut set = vfs::file_set::FileSet::default();
    set.insert(FileId(0), VfsPath::new_virtual_path("/a.move".to_string()));
    let mut change = Change::new();
    change.set_roots(vec![SourceRoot::new_local(set)]);
    change.change_file(FileId(0), Some(Arc::new("script {}".to_string())));
    change.change_file(FileId(0), Some(Arc::new("script {".to_string())));
    host.apply_change(change);
    assert_eq!(host.analysis().diagnostics(FileId(0)).unwrap().len(), 1);
}
'''
