id = 'cancelled-empty'
property = 'P12'
needs = 'a snapshot that is asked for diagnostics after a newer change is waiting to be applied'
breaks = 'the answer is an empty list instead of the report that the question was cancelled'
edits = [('crates/ide/src/lib.rs', '        self.with_db(|db| ide_diagnostics::diagnostics(db, file_id))',
'''        // Nobody is interested in the problems of an outdated text.
        Ok(self.with_db(|db| ide_diagnostics::diagnostics(db, file_id)).unwrap_or_default())''')]
deps = ['ide', 'ide_db', 'vfs']
main = '''use ide_db::base_db::{Change, FileId, SourceRoot, VfsPath};
use std::sync::Arc;
fn main() {
    let mut host = ide::AnalysisHost::new();
    let mut set = vfs::file_set::FileSet::default();
    set.insert(FileId(0), VfsPath::new_virtual_path("/a.move".to_string()));
    let mut change = Change::new();
    change.set_roots(vec![SourceRoot::new_local(set)]);
    change.change_file(FileId(0), Some(Arc::new("script {".to_string())));
    host.apply_change(change);
    let analysis = host.analysis();
    let asking = std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_millis(300));
        match analysis.diagnostics(FileId(0)) {
            Ok(it) => it.len() == 1,
            Err(_) => true,
        }
    });
    let mut change = Change::new();
    change.change_file(FileId(0), Some(Arc::new("script {}".to_string())));
    host.apply_change(change);
    assert_eq!(asking.join().map_err(|_| ()), Ok(true));
}
'''
