id = 'resolve-above-root'
property = 'P10'
needs = 'a relative path that climbs above the virtual root and then names a file that exists under it'
breaks = 'the path is resolved as if the root were its own parent'
edits = [('crates/vfs/src/vfs_path.rs', '''            if !res.pop() {
                return None;
            }
            path = &path["../".len()..]''', '''            res.pop();
            path = &path["../".len()..]''')]
deps = ['vfs']
main = '''use vfs::{file_set::FileSet, AnchoredPath, FileId, VfsPath};
fn main() {
    let mut set = FileSet::default();
    let p = |s: &str| VfsPath::new_virtual_path(s.to_string());
    set.insert(FileId(0), p("/a/x.move"));
    set.insert(FileId(1), p("/y.move"));
    assert_eq!(set.resolve_path(AnchoredPath { anchor: FileId(0), path: "../y.move" }), Some(FileId(1)));
    assert_eq!(set.resolve_path(AnchoredPath { anchor: FileId(0), path: "../../y.move" }), None);
}
'''
