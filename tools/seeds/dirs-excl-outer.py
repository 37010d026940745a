id = 'dirs-excl-outer'
property = 'P20'
needs = 'an include directory nested inside a directory that an outer include excludes'
breaks = 'the exclude of the outer include cuts out the nested include too'
edits = [('crates/vfs/src/loader.rs', '        !self.exclude.iter().any(|excl| path.starts_with(excl) && excl.starts_with(include))',
'''        let mut excluded = self.exclude.iter().filter(|excl| path.starts_with(excl));
        !excluded.any(|excl| excl.starts_with(include) || include.starts_with(excl))''')]
deps = ['vfs', 'paths']
main = '''use std::convert::TryFrom;
use vfs::loader::Directories;
use paths::AbsPathBuf;
fn main() {
    let p = |s: &str| AbsPathBuf::try_from(s).unwrap();
    let d = Directories { extensions: vec!["move".into()], include: vec![p("/w"), p("/w/target/gen")], exclude: vec![p("/w/target")] };
    assert!(!d.contains_file(&p("/w/target/a.move")));
    assert!(d.contains_file(&p("/w/a.move")));
    assert!(d.contains_file(&p("/w/target/gen/a.move")));
    assert!(d.contains_dir(&p("/w/target/gen/x")));
}
'''
