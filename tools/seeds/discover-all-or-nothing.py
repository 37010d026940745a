id = 'discover-all-or-nothing'
property = 'P21'
needs = 'several workspace folders of which one cannot be read'
breaks = 'the manifests of the others are not found either'
edits = [('crates/project_model/src/lib.rs', '''            .filter_map(|it| ProjectManifest::discover(it.as_ref()).ok())
            .flatten()''', '''            .map(|it| ProjectManifest::discover(it.as_ref()))
            .collect::<io::Result<Vec<_>>>()
            .unwrap_or_default()
            .into_iter()
            .flatten()''')]
deps = ['project_model', 'paths']
main = '''use paths::AbsPathBuf;
use project_model::ProjectManifest;
fn main() {
    let here = std::env::current_dir().unwrap();
    std::fs::create_dir(here.join("a")).unwrap();
    std::fs::write(here.join("a/Dove.toml"), "").unwrap();
    let p = |s: &str| AbsPathBuf::assert(here.join(s));
    assert_eq!(ProjectManifest::discover_all(&[p("a")]).len(), 1);
    assert_eq!(ProjectManifest::discover_all(&[p("none"), p("a")]).len(), 1);
}
'''
