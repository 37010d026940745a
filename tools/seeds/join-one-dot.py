id = 'join-one-dot'
property = 'P10'
needs = 'a relative path with two leading "./", resolved against a file of a virtual root'
breaks = 'the file is not found'
edits = [('crates/vfs/src/vfs_path.rs', 'path = path.trim_start_matches("./");', 'path = path.strip_prefix("./").unwrap_or(path);')]
deps = ['vfs']
main = '''use vfs::{file_set::FileSet, AnchoredPath, FileId, VfsPath};
fn main() {
    let mut set = FileSet::default();
    let p = |s: &str| VfsPath::new_virtual_path(s.to_string());
    set.insert(FileId(0), p("/a/x.move"));
    set.insert(FileId(1), p("/y.move"));
    for path in ["../y.move", ".././y.move", "../././y.move"] {
        assert_eq!(set.resolve_path(AnchoredPath { anchor: FileId(0), path }), Some(FileId(1)), "{}", path);
    }
}
'''
