id = 'fileset-last-wins'
property = 'P09'
needs = 'one root listed by two file sets'
breaks = 'the files go to the set listed last, not first'
edits = [('crates/vfs/src/file_set.rs', '            let mut entries = Vec::new();', '            let mut entries = std::collections::BTreeMap::new();'),
('crates/vfs/src/file_set.rs', '                    entries.push((buf, i as u64));', '                    entries.insert(buf, i as u64);'),
('crates/vfs/src/file_set.rs', '            entries.sort();\n            entries.dedup_by(|(a, _), (b, _)| a == b);\n', '')]
deps = ['vfs']
main = '''use vfs::{file_set::FileSetConfig, Vfs, VfsPath};
fn main() {
    let p = |s: &str| VfsPath::new_virtual_path(s.to_string());
    let mut vfs = Vfs::default();
    vfs.set_file_contents(p("/a/x.move"), Some(vec![]));
    let mut b = FileSetConfig::builder();
    b.add_file_set(vec![p("/a")]);
    b.add_file_set(vec![p("/b"), p("/a")]);
    let sets = b.build().partition(&vfs);
    assert_eq!(sets.iter().map(|it| it.len()).collect::<Vec<_>>(), [1, 0, 0]);
}
'''
