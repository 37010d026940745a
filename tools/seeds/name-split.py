id = 'name-trailing-dot'
property = 'P19'
needs = 'a virtual path whose last component ends with a dot'
breaks = 'the dot is lost: name and extension are not those of the real path spelled alike'
edits = [('crates/vfs/src/vfs_path.rs', '''                (None | Some(""), Some(_)) => Some((file_name, None)),''', '''                (None | Some(""), Some(_)) => Some((file_name, None)),
                (Some(file_stem), Some("")) => Some((file_stem, None)),''')]
deps = ['vfs']
main = '''use vfs::VfsPath;
fn main() {
    let p = |s: &str| VfsPath::new_virtual_path(s.to_string());
    assert_eq!(p("/a/b.move").name_and_extension(), Some(("b", Some("move"))));
    assert_eq!(p("/a/b.").name_and_extension(), Some(("b", Some(""))));
}
'''
