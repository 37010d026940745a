id = 'vfs-long-equal'
property = 'P08'
needs = 'two successive contents of a file that have the same length, longer than 64 bytes, the same first 64 bytes and the same last 64, and differ in between'
breaks = 'such an update is taken for no change: it is not logged and the new contents are not stored'
edits = [('crates/vfs/src/lib.rs', '            (Some(old), Some(new)) if old == new => return false,',
 '            (Some(old), Some(new)) if same_contents(old, new) => return false,'),
 ('crates/vfs/src/lib.rs', 'impl fmt::Debug for Vfs {', '''/// Compares the ends first: edits rarely leave both of them and the length alone.
fn same_contents(old: &[u8], new: &[u8]) -> bool {
    const PROBE: usize = 64;
    if old.len() != new.len() {
        return false;
    }
    if old.len() <= PROBE {
        return old == new;
    }
    let tail = old.len() - PROBE;
    old[..PROBE] == new[..PROBE] && old[tail..] == new[tail..]
}

impl fmt::Debug for Vfs {''')]
deps = ['vfs']
main = '''use vfs::{ChangeKind, Vfs, VfsPath};
fn main() {
    let mut vfs = Vfs::default();
    let path = VfsPath::new_virtual_path("/a.move".to_string());
    let text = |c: &str| format!("{}{}{}", " ".repeat(100), c, " ".repeat(100)).into_bytes();
    assert!(vfs.set_file_contents(path.clone(), Some(text("x"))));
    assert!(vfs.set_file_contents(path.clone(), Some(text("y"))));
    let changes = vfs.take_changes();
    assert_eq!(changes.len(), 2);
    assert!(changes[1].change_kind == ChangeKind::Modify);
    let id = vfs.file_id(&path).unwrap();
    assert_eq!(vfs.file_contents(id), &text("y")[..]);
}
'''
