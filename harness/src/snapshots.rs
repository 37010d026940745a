//! Snapshots of the analysis in several threads.
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

use base_db::{Change, FileId, SourceRoot};
use crossbeam_channel::{bounded, unbounded, Receiver, Sender};
use ide::{Analysis, AnalysisHost};
use serde_json::{json, Value};
use vfs::file_set::FileSet;
use vfs::VfsPath;

use crate::analysis::{hash, shown_diagnostics};
use crate::util::*;

const PATIENCE: Duration = Duration::from_secs(10);

/// One question about a file; the answer is a hash, or the question was cancelled, or it failed.
fn ask(analysis: &Analysis, kind: &str, file: FileId) -> Value {
    let res = catch_unwind(AssertUnwindSafe(|| match kind {
        "diags" => analysis.diagnostics(file).map(|it| hash(&shown_diagnostics(it))),
        "index" => analysis.file_line_index(file).map(|it| hash(&format!("{:?}", shown_index(&it)))),
        it => panic!("no question {}", it),
    }));
    match res {
        Ok(Ok(it)) => json!({ "is": it }),
        Ok(Err(_)) => json!("cancelled"),
        Err(panic) => json!({ "panic": panic_text(&*panic) }),
    }
}

/// The lines of an index, without the text.
fn shown_index(index: &ide_db::LineIndex) -> Vec<(u32, u32)> {
    let mut res = Vec::new();
    let mut line = 0;
    for offset in 0..3000u32 {
        let at = index.line_col(offset.into());
        if at.line != line {
            line = at.line;
            res.push((line, offset));
        }
    }
    res
}

struct World {
    texts: Vec<Arc<String>>,
    /// changes[n]: [file, text]..
    changes: Vec<Value>,
    files: usize,
}

impl World {
    fn new(case: &Value) -> World {
        World {
            texts: arr(case, "texts").iter().map(|it| Arc::new(text(it))).collect(),
            changes: arr(case, "changes").to_vec(),
            files: int(case, "files") as usize,
        }
    }

    fn change(&self, n: usize) -> Change {
        let mut change = Change::new();
        if n == 0 || n % 3 == 2 {
            let mut set = FileSet::default();
            for file in 0..self.files {
                set.insert(FileId(file as u32), VfsPath::new_virtual_path(format!("/{}.move", file)));
            }
            let root = if n % 2 == 0 { SourceRoot::new_local(set) } else { SourceRoot::new_library(set) };
            change.set_roots(vec![root]);
        }
        for it in self.changes[n].as_array().unwrap() {
            let text = self.texts[it[1].as_u64().unwrap() as usize].clone();
            change.change_file(FileId(it[0].as_u64().unwrap() as u32), Some(text));
        }
        change
    }

    fn host(&self) -> AnalysisHost {
        let mut host = AnalysisHost::new();
        host.apply_change(self.change(0));
        host
    }
}

/// {texts, changes, files}: for every moment, the answers to all questions, from a fresh analysis.
pub fn moments(case: &Value) -> Value {
    let world = World::new(case);
    let mut texts = vec![0; world.files];
    let mut res = Vec::new();
    for n in 0..world.changes.len() {
        for it in world.changes[n].as_array().unwrap() {
            texts[it[0].as_u64().unwrap() as usize] = it[1].as_u64().unwrap() as usize;
        }
        let answers = texts
            .iter()
            .map(|it| {
                let (analysis, file) = crate::analysis::single(&world.texts[*it]);
                json!({"diags": ask(&analysis, "diags", file), "index": ask(&analysis, "index", file)})
            })
            .collect::<Vec<_>>();
        res.push(Value::from(answers));
    }
    res.into()
}

enum Order {
    Ask(String, u32),
    Drop,
}

/// {texts, changes, files, ops}: follows a schedule. Every snapshot lives in a thread of its own.
/// The answers, or where it got stuck.
pub fn schedule(case: &Value) -> Value {
    let world = Arc::new(World::new(case));
    let host = Arc::new(Mutex::new(world.host()));
    let mut readers: HashMap<String, (Sender<Order>, Receiver<Value>)> = HashMap::new();
    let mut applied = 1;
    let mut writer: Option<Receiver<()>> = None;
    let mut res = Vec::new();
    for (n, op) in arr(case, "ops").iter().enumerate() {
        let stuck = |what: &str| json!({"stuck": what, "step": n, "answers": res});
        match str_(op, "do") {
            "take" => {
                let analysis = host.lock().unwrap().analysis();
                let (orders, inbox) = unbounded();
                let (outbox, answers) = unbounded();
                thread::spawn(move || {
                    for order in inbox {
                        match order {
                            Order::Ask(kind, file) => outbox.send(ask(&analysis, &kind, FileId(file))).unwrap(),
                            Order::Drop => break,
                        }
                    }
                    drop(analysis);
                    outbox.send("dropped".into()).unwrap();
                });
                readers.insert(str_(op, "s").to_string(), (orders, answers));
            }
            "ask" => {
                let order = Order::Ask(str_(op, "kind").to_string(), int(op, "f") as u32);
                readers[str_(op, "s")].0.send(order).unwrap();
            }
            "answer" => match readers[str_(op, "s")].1.recv_timeout(PATIENCE) {
                Ok(it) => res.push(it),
                Err(_) => return stuck("a question gets no answer"),
            },
            "drop" => {
                let (orders, answers) = readers.remove(str_(op, "s")).unwrap();
                orders.send(Order::Drop).unwrap();
                if answers.recv_timeout(PATIENCE).is_err() {
                    return stuck("a snapshot cannot be dropped");
                }
            }
            "begin" => {
                let (done, wait) = bounded(1);
                let (world, host) = (world.clone(), host.clone());
                let number = applied;
                let (started, begun) = bounded(1);
                thread::spawn(move || {
                    let mut host = host.lock().unwrap();
                    let change = world.change(number);
                    started.send(()).unwrap();
                    host.apply_change(change);
                    drop(host);
                    done.send(()).unwrap();
                });
                begun.recv().unwrap();
                applied += 1;
                writer = Some(wait);
                if op["pause"].as_bool() == Some(true) {
                    thread::sleep(Duration::from_millis(2));
                }
            }
            "finish" => {
                if writer.take().unwrap().recv_timeout(PATIENCE).is_err() {
                    return stuck("the change is not applied although no snapshot is left");
                }
            }
            it => panic!("cannot do {}", it),
        }
        if let Some(wait) = &writer {
            if !readers.is_empty() && wait.try_recv().is_ok() {
                return json!({"early": n, "answers": res});
            }
        }
    }
    // In the end, everything is given back, and the analysis is still usable
    for (_, (orders, _)) in readers.drain() {
        drop(orders);
    }
    if let Some(wait) = writer {
        if wait.recv_timeout(PATIENCE).is_err() {
            return json!({"stuck": "the change is not applied in the end", "answers": res});
        }
    }
    let analysis = match host.lock() {
        Ok(it) => it.analysis(),
        Err(_) => return json!({"stuck": "the writer panicked", "answers": res}),
    };
    let end = (0..world.files as u32)
        .map(|file| json!({"diags": ask(&analysis, "diags", FileId(file)), "index": ask(&analysis, "index", FileId(file))}))
        .collect::<Vec<_>>();
    json!({"answers": res, "end": end, "applied": applied})
}

/// {texts, changes, files, rounds: [{readers: [{questions: [[kind, file]..], pause, hold}..], pause}..]}:
/// threads left to themselves; what they did, in order.
pub fn threads(case: &Value) -> Value {
    let world = Arc::new(World::new(case));
    let mut host = world.host();
    let events: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(Vec::new()));
    let log = {
        let events = events.clone();
        move |it: Value| events.lock().unwrap().push(it)
    };
    let taken = Arc::new(AtomicUsize::new(0));
    let running = Arc::new(AtomicUsize::new(0));
    let over = Arc::new(AtomicBool::new(false));
    let watch = {
        // a writer that waits for ever is seen here
        let (over, events) = (over.clone(), events.clone());
        let (done, wait) = bounded::<()>(1);
        thread::spawn(move || {
            let mut seen = (0, Instant::now());
            while !over.load(Ordering::SeqCst) {
                if wait.recv_timeout(Duration::from_millis(100)).is_ok() {
                    return;
                }
                let n = events.lock().unwrap().len();
                if n != seen.0 {
                    seen = (n, Instant::now());
                } else if seen.1.elapsed() > PATIENCE {
                    events.lock().unwrap().push(json!({"ev": "stuck"}));
                    return;
                }
            }
        });
        done
    };
    let (finished, ended) = unbounded::<()>();
    {
        let (world, log, events) = (world.clone(), log, events.clone());
        let rounds = arr(case, "rounds").to_vec();
        let over = over.clone();
        thread::spawn(move || {
            for (n, round) in rounds.iter().enumerate() {
                for reader in arr(round, "readers") {
                    let s = format!("s{}", taken.fetch_add(1, Ordering::SeqCst) % 64);
                    running.fetch_add(1, Ordering::SeqCst);
                    let analysis = host.analysis();
                    log(json!({"ev": "take", "s": s}));
                    let (reader, log, running) = (reader.clone(), log.clone(), running.clone());
                    thread::spawn(move || {
                        let mut analysis = Some(analysis);
                        for question in arr(&reader, "questions") {
                            if let Some(pause) = question[2].as_u64() {
                                thread::sleep(Duration::from_micros(pause));
                            }
                            log(json!({"ev": "ask", "s": s}));
                            let kind = question[0].as_str().unwrap();
                            let file = question[1].as_u64().unwrap() as u32;
                            let answer = ask(analysis.as_ref().unwrap(), kind, FileId(file));
                            let cancelled = answer == "cancelled";
                            log(json!({"ev": "answer", "s": s, "kind": kind, "f": file, "answer": answer, "cancelled": cancelled}));
                            if cancelled && reader["leave"].as_bool() == Some(true) {
                                break;
                            }
                        }
                        log(json!({"ev": "drop", "s": s}));
                        analysis.take();
                        running.fetch_sub(1, Ordering::SeqCst);
                    });
                }
                if n + 1 < world.changes.len() {
                    thread::sleep(Duration::from_micros(int(round, "pause") as u64));
                    let change = world.change(n + 1);
                    log(json!({"ev": "begin"}));
                    host.apply_change(change);
                    log(json!({"ev": "finish"}));
                }
            }
            while running.load(Ordering::SeqCst) > 0 {
                thread::sleep(Duration::from_millis(1));
            }
            over.store(true, Ordering::SeqCst);
            drop(watch);
            drop(events);
            finished.send(()).unwrap();
        });
    }
    // ends, or is seen to be stuck
    loop {
        if ended.recv_timeout(Duration::from_millis(50)).is_ok() {
            break;
        }
        if events.lock().unwrap().last().map_or(false, |it| it["ev"] == "stuck") {
            break;
        }
    }
    let res = events.lock().unwrap().clone();
    res.into()
}
