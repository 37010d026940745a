id = 'snapshot-uncaught'
property = 'P12'
needs = 'a snapshot that is asked for a line table after a newer change is waiting to be applied'
breaks = 'the question panics instead of reporting that it was cancelled'
edits = [('crates/ide/src/lib.rs', '        self.with_db(|db| db.line_index(file_id))', '        // Cheap: there is no need to be able to cancel it.\n        Ok(self.db.line_index(file_id))')]
deps = ['ide', 'ide_db', 'vfs']
main = '''use ide_db::base_db::{Change, FileId, SourceRoot, VfsPath};
use std::sync::Arc;
fn main() {
    let mut host = ide::AnalysisHost::new();
    let mut set = vfs::file_set::FileSet::default();
    set.insert(FileId(0), VfsPath::new_virtual_path("/a.move".to_string()));
    let mut change = Change::new();
    change.set_roots(vec![SourceRoot::new_local(set)]);
    change.change_file(FileId(0), Some(Arc::new("script {".to_string())));
    host.apply_change(change);
    let analysis = host.analysis();
    let asking = std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_millis(300));
        analysis.file_line_index(FileId(0)).is_err()
    });
    let mut change = Change::new();
    change.change_file(FileId(0), Some(Arc::new("script {}".to_string())));
    host.apply_change(change);
    assert_eq!(asking.join().map_err(|_| ()), Ok(true));
}
'''
