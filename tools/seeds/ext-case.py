id = 'ext-case'
property = 'P20'
needs = 'a file whose extension differs from a listed one only in case'
breaks = 'it is selected'
edits = [('crates/vfs/src/loader.rs', 'if self.extensions.iter().all(|it| it.as_str() != ext) {', 'if !self.extensions.iter().any(|it| ext.eq_ignore_ascii_case(it)) {')]
deps = ['vfs', 'paths']
main = '''use std::convert::TryFrom;
use vfs::loader::Directories;
use paths::AbsPathBuf;
fn main() {
    let p = |s: &str| AbsPathBuf::try_from(s).unwrap();
    let d = Directories { extensions: vec!["move".into()], include: vec![p("/w")], exclude: vec![] };
    assert!(d.contains_file(&p("/w/a.move")));
    assert!(!d.contains_file(&p("/w/a.MOVE")));
}
'''
