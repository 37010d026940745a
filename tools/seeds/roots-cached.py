id = 'roots-cached'
property = 'P11'
needs = 'a change of the source roots that turns one local root into a library and another library into a local root'
breaks = 'the sets of local and library roots stay the old ones'
edits = [('crates/ide_db/src/apply_change.rs', '''            self.set_local_roots_with_durability(Arc::new(local_roots), Durability::HIGH);
            self.set_library_roots_with_durability(Arc::new(library_roots), Durability::HIGH);''',
'''            // Setting these invalidates everything that depends on the roots.
            let changed = self.local_roots().len() != local_roots.len()
                || self.library_roots().len() != library_roots.len();
            if changed {
                self.set_local_roots_with_durability(Arc::new(local_roots), Durability::HIGH);
                self.set_library_roots_with_durability(Arc::new(library_roots), Durability::HIGH);
            }''')]
deps = ['ide', 'ide_db', 'vfs']
main = '''use ide_db::base_db::{Change, FileId, SourceDatabase, SourceRoot, SourceRootId, VfsPath};
use std::sync::Arc;
fn main() {
    let mut host = ide::AnalysisHost::new();
    for local in [0u32, 1] {
        let mut change = Change::new();
        change.set_roots((0..2u32).map(|i| {
            let mut set = vfs::file_set::FileSet::default();
            set.insert(FileId(i), VfsPath::new_virtual_path(format!("/{}.move", i)));
            if i == local { SourceRoot::new_local(set) } else { SourceRoot::new_library(set) }
        }).collect());
        change.change_file(FileId(0), Some(Arc::new(String::new())));
        change.change_file(FileId(1), Some(Arc::new(String::new())));
        host.apply_change(change);
        let roots = host.raw_database().local_roots();
        assert!(roots.len() == 1 && roots.contains(&SourceRootId(local)));
    }
}
'''
