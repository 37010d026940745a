//! Finding and loading projects, in directory trees made for it.
use std::convert::TryFrom;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

use paths::AbsPathBuf;
use project_model::{ProjectManifest, ProjectWorkspace};
use serde_json::{json, Value};

use crate::util::*;

fn show(base: &Path, manifest: &ProjectManifest) -> Value {
    let ProjectManifest::DoveToml(path) = manifest;
    let path: &Path = path.as_ref();
    let shown = path.strip_prefix(base).map(|it| it.display().to_string());
    json!(shown.unwrap_or_else(|_| path.display().to_string()))
}

fn abs(base: &Path, it: &Value) -> AbsPathBuf {
    AbsPathBuf::assert(base.join(it.as_str().unwrap()))
}

/// {base, make: [[what, path, argument]..], one: [start..], all: [[start..]..], single: [start..]}: makes the
/// entries below `base` (which must not exist; it is removed afterwards), and what is found from the starts.
pub fn discover(case: &Value) -> Value {
    let base = PathBuf::from(str_(case, "base"));
    assert!(base.components().count() > 3);
    fs::create_dir(&base).unwrap();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| explore(&base, case)));
    fs::remove_dir_all(&base).unwrap();
    res.unwrap_or_else(|it| std::panic::resume_unwind(it))
}

fn explore(base: &Path, case: &Value) -> Value {
    for entry in arr(case, "make") {
        let path = base.join(entry[1].as_str().unwrap());
        match entry[0].as_str().unwrap() {
            "dir" => fs::create_dir_all(path).unwrap(),
            "file" => fs::write(path, entry[2].as_str().unwrap()).unwrap(),
            "link" => symlink(base.join(entry[2].as_str().unwrap()), path).unwrap(),
            it => panic!("cannot make {}", it),
        }
    }
    let found = |it: std::io::Result<Vec<ProjectManifest>>| match it {
        Ok(it) => it.iter().map(|it| show(base, it)).collect::<Vec<_>>().into(),
        Err(_) => json!("error"),
    };
    let one = arr(case, "one").iter().map(|it| found(ProjectManifest::discover(&abs(base, it)))).collect::<Vec<_>>();
    let all = arr(case, "all")
        .iter()
        .map(|it| {
            let starts = it.as_array().unwrap().iter().map(|it| abs(base, it)).collect::<Vec<_>>();
            ProjectManifest::discover_all(&starts).iter().map(|it| show(base, it)).collect::<Vec<_>>()
        })
        .collect::<Vec<_>>();
    let single = arr(case, "single")
        .iter()
        .map(|it| match ProjectManifest::discover_single(&abs(base, it)) {
            Ok(it) => show(base, &it),
            Err(_) => Value::Null,
        })
        .collect::<Vec<_>>();
    json!({"one": one, "all": all, "single": single})
}

/// {base, bytes or missing}: what loading the manifest gives.
pub fn manifest(case: &Value) -> Value {
    let path = PathBuf::from(str_(case, "base"));
    assert!(path.components().count() > 3);
    let dir = path.parent().unwrap().to_path_buf();
    let _ = fs::remove_file(&path);
    if let Some(text) = case["text"].as_array() {
        fs::create_dir_all(&dir).unwrap();
        let bytes = text.iter().map(|it| it.as_u64().unwrap() as u8).collect::<Vec<_>>();
        fs::write(&path, bytes).unwrap();
    }
    let manifest = ProjectManifest::from_manifest_file(AbsPathBuf::assert(path.clone())).unwrap();
    let res = match ProjectWorkspace::load(manifest) {
        Ok(ProjectWorkspace::Dove { dove_toml }) => {
            let package = dove_toml.package;
            json!({"name": package.name, "account_address": package.account_address,
                   "dove_version": package.dove_version, "dialect": package.dialect})
        }
        Ok(_) => json!("detached"),
        Err(_) => json!("error"),
    };
    let _ = fs::remove_file(&path);
    res
}

/// {paths}: which paths may be manifests.
pub fn manifest_paths(case: &Value) -> Value {
    arr(case, "paths")
        .iter()
        .map(|it| {
            let path = AbsPathBuf::try_from(it.as_str().unwrap()).unwrap();
            match ProjectManifest::from_manifest_file(path) {
                Ok(ProjectManifest::DoveToml(it)) => json!([it.display().to_string(), it.parent().display().to_string()]),
                Err(_) => Value::Null,
            }
        })
        .collect::<Vec<_>>()
        .into()
}
