id = 'encode-no-tag'
property = 'P09'
needs = 'a virtual path and a root on the real file system (or the reverse) that are spelled alike'
breaks = 'the file is put into the set of a root that it is not under'
edits = [('crates/vfs/src/vfs_path.rs', '''        let tag = match &self.0 {
            VfsPathRepr::PathBuf(_) => 0,
            VfsPathRepr::VirtualPath(_) => 1,
        };
        buf.push(tag);
''', '')]
deps = ['vfs', 'paths']
main = '''use std::convert::TryFrom;
use vfs::{file_set::FileSetConfig, Vfs, VfsPath};
fn main() {
    let v = |s: &str| VfsPath::new_virtual_path(s.to_string());
    let r = |s: &str| VfsPath::from(paths::AbsPathBuf::try_from(s).unwrap());
    let mut vfs = Vfs::default();
    vfs.set_file_contents(v("/a/x.move"), Some(vec![]));
    vfs.set_file_contents(r("/b/y.move"), Some(vec![]));
    vfs.set_file_contents(r("/a/z.move"), Some(vec![]));
    let mut b = FileSetConfig::builder();
    b.add_file_set(vec![r("/a")]);
    b.add_file_set(vec![v("/b")]);
    let sets = b.build().partition(&vfs);
    assert_eq!(sets.iter().map(|it| it.len()).collect::<Vec<_>>(), [1, 0, 2]);
}
'''
