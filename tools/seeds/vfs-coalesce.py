id = 'vfs-coalesce'
property = 'P08'
needs = 'a file that is created and modified before the log is taken'
breaks = 'the log says the file was modified, and its creation is lost'
edits = [('crates/vfs/src/lib.rs', '        self.changes.push(ChangedFile { file_id, change_kind });\n        true', '''        match self.changes.last_mut() {
            // Several updates of one file in a row: the last one counts.
            Some(last) if last.file_id == file_id && change_kind == ChangeKind::Modify => {
                last.change_kind = change_kind
            }
            _ => self.changes.push(ChangedFile { file_id, change_kind }),
        }
        true''')]
deps = ['vfs']
main = '''use vfs::{ChangeKind, Vfs, VfsPath};
fn main() {
    let mut vfs = Vfs::default();
    let path = VfsPath::new_virtual_path("/a.move".to_string());
    assert!(vfs.set_file_contents(path.clone(), Some(vec![1])));
    assert!(vfs.set_file_contents(path.clone(), Some(vec![2])));
    let kinds = vfs.take_changes().into_iter().map(|it| it.change_kind).collect::<Vec<_>>();
    assert!(kinds == [ChangeKind::Create, ChangeKind::Modify]);
}
'''
