//! The virtual file system, file sets and paths.
use serde_json::{json, Value};
use vfs::{ChangeKind, Vfs, VfsPath};

use crate::util::*;

/// A history of operations on a file system. Paths are "/p", virtual unless the case says "real".
pub fn vfs(case: &Value) -> Value {
    let real = case["real"].as_bool().unwrap_or(false);
    // what the names of the case stand for, if not for themselves
    let names = case["names"].as_object().cloned().unwrap_or_default();
    let value = |name: &str| names.get(name).map_or(name, |it| it.as_str().unwrap()).to_string();
    let name = |value: String| {
        let it = names.iter().find(|(_, it)| it.as_str() == Some(&value));
        it.map_or(value.clone(), |(name, _)| name.clone())
    };
    let path = |p: &str| {
        let p = &*value(p);
        if real {
            VfsPath::from(vfs::AbsPathBuf::assert(p.into()))
        } else {
            VfsPath::new_virtual_path(p.to_string())
        }
    };
    let mut vfs = Vfs::default();
    let mut res = Vec::new();
    for op in arr(case, "ops") {
        let mut obs = json!({});
        match str_(op, "op") {
            "set" => {
                let contents = match str_(op, "c") {
                    "-" => None,
                    it => Some(value(it).into_bytes()),
                };
                obs["changed"] = vfs.set_file_contents(path(str_(op, "p")), contents).into();
            }
            "take" => {
                let log = vfs.take_changes();
                obs["log"] = log
                    .iter()
                    .map(|it| {
                        let kind = match it.change_kind {
                            ChangeKind::Create => "create",
                            ChangeKind::Modify => "modify",
                            ChangeKind::Delete => "delete",
                        };
                        json!({"id": it.file_id.0, "kind": kind, "exists": it.exists(),
                               "structure": it.is_created_or_deleted()})
                    })
                    .collect::<Vec<_>>()
                    .into();
            }
            other => panic!("no operation {}", other),
        }
        obs["len"] = vfs.len().into();
        obs["pending"] = vfs.has_changes().into();
        // existing files: path, id, contents
        let mut files = vfs
            .iter()
            .map(|(id, path)| {
                assert_eq!(&vfs.file_path(id), path);
                assert_eq!(vfs.file_id(path), Some(id));
                json!({"p": name(path.to_string()), "id": id.0,
                       "c": name(String::from_utf8(vfs.file_contents(id).to_vec()).unwrap())})
            })
            .collect::<Vec<_>>();
        files.sort_by_key(|it| it["id"].as_u64());
        obs["files"] = files.into();
        // every path ever named keeps its id
        obs["ids"] = (0..vfs.len())
            .map(|it| Value::from(name(vfs.file_path(vfs::FileId(it as u32)).to_string())))
            .collect::<Vec<_>>()
            .into();
        let gone = (0..vfs.len())
            .map(|it| vfs.file_path(vfs::FileId(it as u32)))
            .filter(|it| vfs.file_id(it).is_none())
            .count();
        obs["gone"] = gone.into();
        res.push(obs);
    }
    res.into()
}

/// "/a/b" is a path of the file system, "#/a/b" a virtual one.
fn path_of(p: &Value) -> VfsPath {
    let p = p.as_str().unwrap();
    match p.strip_prefix('#') {
        Some(virt) => VfsPath::new_virtual_path(virt.to_string()),
        None => VfsPath::from(vfs::AbsPathBuf::assert(p.into())),
    }
}

fn spelling(path: &VfsPath) -> String {
    match path.as_path() {
        Some(path) => path.display().to_string(),
        None => format!("#{}", path),
    }
}

/// {config: [[root]], files: [[path, exists]], queries: [[anchor, rel]]}: the file sets, and the
/// path every query resolves to in every set.
pub fn filesets(case: &Value) -> Value {
    let mut builder = vfs::file_set::FileSetConfig::builder();
    for set in arr(case, "config") {
        builder.add_file_set(set.as_array().unwrap().iter().map(path_of).collect());
    }
    let config = builder.build();
    let mut vfs = Vfs::default();
    for file in arr(case, "files") {
        vfs.set_file_contents(path_of(&file[0]), Some(vec![1]));
    }
    for file in arr(case, "files") {
        if !file[1].as_bool().unwrap() {
            vfs.set_file_contents(path_of(&file[0]), None);
        }
    }
    let sets = config.partition(&vfs);
    let mut inverse = true;
    let listed = sets
        .iter()
        .map(|set| {
            let mut paths = Vec::new();
            for id in set.iter() {
                let path = set.path_for_file(&id).unwrap();
                inverse &= set.file_for_path(path) == Some(&id) && &vfs.file_path(id) == path;
                paths.push(spelling(path));
            }
            inverse &= set.len() == paths.len();
            paths.sort();
            paths
        })
        .collect::<Vec<_>>();
    // files of another set, and removed ones, are unknown to a set
    for (id, path) in vfs.iter() {
        for (set, listed) in sets.iter().zip(&listed) {
            let known = listed.contains(&spelling(path));
            inverse &= set.file_for_path(path).is_some() == known;
            inverse &= set.path_for_file(&id).is_some() == known;
        }
    }
    let answers = arr(case, "queries")
        .iter()
        .map(|query| {
            let anchor = path_of(&query[0]);
            // a removed anchor still has an id, which is in no set
            let anchor = (0..vfs.len() as u32)
                .map(vfs::FileId)
                .find(|&it| vfs.file_path(it) == anchor)
                .unwrap_or(vfs::FileId(100_000));
            let path = vfs::AnchoredPath { anchor, path: query[1].as_str().unwrap() };
            sets.iter()
                .map(|set| {
                    set.resolve_path(path).map(|id| {
                        spelling(set.path_for_file(&id).expect("resolved to a file of the set"))
                    })
                })
                .collect::<Vec<_>>()
        })
        .collect::<Vec<_>>();
    json!({ "sets": listed, "inverse": inverse, "answers": answers })
}

/// {s, rels, bases}: what every operation on the path text s gives (texts as code points).
pub fn paths(case: &Value) -> Value {
    use std::path::{Component, Path, PathBuf};
    use vfs::{AbsPath, AbsPathBuf};
    let comps = |path: &Path| -> Value {
        path.components()
            .filter_map(|it| match it {
                Component::RootDir => None,
                it => Some(code_points(it.as_os_str().to_str().unwrap())),
            })
            .collect::<Vec<_>>()
            .into()
    };
    let abs = |path: &AbsPath| -> Value {
        assert!(Path::new(path.as_os_str()).is_absolute());
        comps(Path::new(path.as_os_str()))
    };
    let opt = |it: Option<Value>| -> Value { it.into_iter().collect::<Vec<_>>().into() };
    let split = |stem: &str, ext: Option<&str>| -> Value {
        json!({"stem": code_points(stem), "hasExt": ext.is_some(), "ext": code_points(ext.unwrap_or(""))})
    };
    let s = text(&case["s"]);
    let p = AbsPathBuf::assert(PathBuf::from(&s));
    let n = p.normalize();
    assert_eq!(n.normalize().as_os_str(), n.as_os_str(), "normalising twice");
    let v = VfsPath::new_virtual_path(s.clone());
    let r = VfsPath::from(p.clone());
    assert_eq!(r.as_path(), Some(n.as_path()), "a file system path is normalised");
    assert_eq!(v.as_path(), None);
    // the VFS views of real paths agree with those of the path type
    assert_eq!(r.parent().map(|it| it.to_string()), n.parent().map(|it| it.display().to_string()));
    assert_eq!(
        r.name_and_extension().map(|(a, b)| (a.to_string(), b.map(|it| it.to_string()))),
        n.file_stem().map(|it| (
            it.to_str().unwrap().to_string(),
            n.extension().map(|it| it.to_str().unwrap().to_string())
        ))
    );
    let texts = |key: &str| arr(case, key).iter().map(text).collect::<Vec<_>>();
    let (rels, bases) = (texts("rels"), texts("bases"));
    let abs_bases =
        bases.iter().map(|it| AbsPathBuf::assert(PathBuf::from(it))).collect::<Vec<_>>();
    let joins = rels
        .iter()
        .map(|rel| {
            let joined = p.join(rel);
            // the VFS path joins to the normalised one
            let via_vfs = r.join(rel).unwrap();
            assert_eq!(via_vfs.as_path(), Some(n.join(rel).normalize().as_path()));
            json!({"raw": abs(&joined), "norm": abs(&joined.normalize())})
        })
        .collect::<Vec<_>>();
    let mut popped = p.clone();
    let did_pop = popped.pop();
    assert_eq!(did_pop, p.parent().is_some());
    if let Some(parent) = p.parent() {
        assert_eq!(parent, popped.as_path());
    }
    json!({
        "norm": abs(&n),
        "comps": abs(&p),
        "parent": opt(p.parent().map(|it| abs(it))),
        "name": opt(p.file_name().map(|it| code_points(it.to_str().unwrap()))),
        "split": opt(p.file_stem().map(|it| split(
            it.to_str().unwrap(), p.extension().map(|it| it.to_str().unwrap())))),
        "joins": joins,
        "under": abs_bases.iter().map(|it| p.starts_with(it)).collect::<Vec<_>>(),
        "nunder": abs_bases.iter().map(|it| r.starts_with(&VfsPath::from(it.clone()))).collect::<Vec<_>>(),
        "strip": abs_bases.iter().map(|it| opt(p.strip_prefix(it).map(|it| {
            let it: &Path = it.as_ref();
            comps(it)
        }))).collect::<Vec<_>>(),
        "same": abs_bases.iter().map(|it| it.normalize() == n && VfsPath::from(it.clone()) == r)
            .collect::<Vec<_>>(),
        "vparent": opt(v.parent().map(|it| code_points(&it.to_string()))),
        "vname": opt(v.name_and_extension().map(|(a, b)| split(a, b))),
        "vjoins": rels.iter().map(|it| opt(v.join(it).map(|it| code_points(&it.to_string()))))
            .collect::<Vec<_>>(),
        "vunder": bases.iter()
            .map(|it| v.starts_with(&VfsPath::new_virtual_path(it.clone()))).collect::<Vec<_>>(),
    })
}

/// {include, exclude, extensions, files, dirs}: which are selected, through every entry point.
pub fn dirfilter(case: &Value) -> Value {
    use vfs::loader::{Directories, Entry};
    use vfs::AbsPathBuf;
    let abs = |it: &Value| AbsPathBuf::assert(it.as_str().unwrap().into());
    let list = |key: &str| arr(case, key).iter().map(abs).collect::<Vec<_>>();
    let entry = match case["standard"].as_str() {
        Some("recursive") => Entry::rs_files_recursively(abs(&case["base"])),
        Some("package") => Entry::local_cargo_package(abs(&case["base"])),
        Some("dependency") => Entry::cargo_package_dependency(abs(&case["base"])),
        Some("files") => Entry::Files(list("include")),
        Some(it) => panic!("no filter {}", it),
        None => Entry::Directories(Directories {
            extensions: arr(case, "extensions").iter().map(|it| it.as_str().unwrap().into()).collect(),
            include: list("include"),
            exclude: list("exclude"),
        }),
    };
    let files = list("files");
    let dirs = list("dirs");
    if let Entry::Directories(it) = &entry {
        for path in &files {
            assert_eq!(it.contains_file(path), entry.contains_file(path));
        }
        for path in &dirs {
            assert_eq!(it.contains_dir(path), entry.contains_dir(path));
        }
    }
    json!({
        "files": files.iter().map(|it| entry.contains_file(it)).collect::<Vec<_>>(),
        "dirs": dirs.iter().map(|it| entry.contains_dir(it)).collect::<Vec<_>>(),
    })
}
