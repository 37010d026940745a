id = 'child-symlink'
property = 'P21'
needs = 'a subdirectory that is a symbolic link to a directory with a manifest'
breaks = 'the manifest is not found'
edits = [('crates/project_model/src/lib.rs', '                .map(|it| it.path().join("Dove.toml"))', '''                .filter(|it| it.file_type().map_or(false, |it| it.is_dir()))
                .map(|it| it.path().join("Dove.toml"))''')]
deps = ['project_model', 'paths']
main = '''use paths::AbsPathBuf;
use project_model::ProjectManifest;
fn main() {
    let here = std::env::current_dir().unwrap();
    for dir in ["a", "w", "w/b"] {
        std::fs::create_dir(here.join(dir)).unwrap();
    }
    std::fs::write(here.join("a/Dove.toml"), "").unwrap();
    std::fs::write(here.join("w/b/Dove.toml"), "").unwrap();
    std::os::unix::fs::symlink("../a", here.join("w/c")).unwrap();
    assert_eq!(ProjectManifest::discover(&AbsPathBuf::assert(here.join("w"))).unwrap().len(), 2);
}
'''
