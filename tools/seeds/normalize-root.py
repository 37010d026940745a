id = 'normalize-deep-parent'
property = 'P19'
needs = 'a path with ".." directly after a name that starts with a dot'
breaks = 'the ".." is dropped without removing that name'
edits = [('crates/paths/src/lib.rs', '''            Component::ParentDir => {
                ret.pop();
            }''', '''            Component::ParentDir => {
                // a name without an extension or stem is not a directory to leave
                if ret.file_stem().map_or(true, |it| !it.to_string_lossy().starts_with('.')) {
                    ret.pop();
                }
            }''')]
deps = ['paths']
main = '''use paths::AbsPathBuf;
fn main() {
    let p = |s: &str| AbsPathBuf::assert(s.into());
    assert_eq!(p("/a/../b").normalize(), p("/b"));
    assert_eq!(p("/../b").normalize(), p("/b"));
    assert_eq!(p("/.a/../b").normalize(), p("/b"));
}
'''
