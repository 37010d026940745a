//! Drives the crates of move-language-server for the checks in /verif.
//!
//! mvh <runner> <cases.ndjson> <results.ndjson> <start> <timeout seconds>
//!
//! Every case is one JSON line; the result line is {"ok": ..}, {"panic": ..} or {"hang": ..}.
//! A crash of the process (stack overflow, out of memory) is seen by the caller as a missing line.
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

#[cfg(feature = "analysis")]
mod analysis;
#[cfg(feature = "diagstore")]
mod diagstore;
#[cfg(feature = "edits")]
mod edits;
#[cfg(feature = "files")]
mod files;
#[cfg(feature = "lineends")]
mod lineends;
#[cfg(feature = "positions")]
mod positions;
#[cfg(feature = "projects")]
mod projects;
#[cfg(feature = "server")]
mod server;
#[cfg(feature = "snapshots")]
mod snapshots;
#[cfg(feature = "trees")]
mod trees;
mod util;

type Runner = fn(&Value) -> Value;

fn runner(name: &str) -> Option<Runner> {
    Some(match name {
        #[cfg(feature = "files")]
        "vfs" => files::vfs,
        #[cfg(feature = "positions")]
        "lines" => positions::lines,
        #[cfg(feature = "positions")]
        "runlines" => positions::runlines,
        #[cfg(feature = "lineends")]
        "lineends" => lineends::lineends,
        #[cfg(feature = "edits")]
        "edits" => edits::edits,
        #[cfg(feature = "diagstore")]
        "diagstore" => diagstore::diagstore,
        #[cfg(feature = "server")]
        "server" => server::server,
        #[cfg(feature = "analysis")]
        "diags" => analysis::diags,
        #[cfg(feature = "analysis")]
        "errors" => analysis::errors,
        #[cfg(feature = "analysis")]
        "facts" => analysis::facts,
        #[cfg(feature = "snapshots")]
        "moments" => snapshots::moments,
        #[cfg(feature = "snapshots")]
        "schedule" => snapshots::schedule,
        #[cfg(feature = "snapshots")]
        "threads" => snapshots::threads,
        #[cfg(feature = "analysis")]
        "incremental" => analysis::incremental,
        #[cfg(feature = "trees")]
        "leaves" => trees::leaves,
        #[cfg(feature = "trees")]
        "tree" => trees::tree,
        #[cfg(feature = "trees")]
        "skeleton" => trees::skeleton,
        #[cfg(feature = "trees")]
        "read" => trees::read,
        #[cfg(feature = "files")]
        "filesets" => files::filesets,
        #[cfg(feature = "files")]
        "paths" => files::paths,
        #[cfg(feature = "files")]
        "dirfilter" => files::dirfilter,
        #[cfg(feature = "projects")]
        "discover" => projects::discover,
        #[cfg(feature = "projects")]
        "manifest" => projects::manifest,
        #[cfg(feature = "projects")]
        "manifest_paths" => projects::manifest_paths,
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 6 {
        eprintln!("usage: mvh <runner> <in> <out> <start> <timeout>");
        std::process::exit(2);
    }
    let run = match runner(&args[1]) {
        Some(it) => it,
        None => {
            eprintln!("no runner {}", args[1]);
            std::process::exit(2);
        }
    };
    let start: usize = args[4].parse().unwrap();
    let timeout: f64 = args[5].parse().unwrap();
    let out = OpenOptions::new().create(true).append(true).open(&args[3]).unwrap();
    let out = Arc::new(Mutex::new(out));

    // The case being run (number + 1, 0 before the first) and when it was started
    let case = Arc::new(AtomicU64::new(0));
    let began = Instant::now();
    let since = Arc::new(AtomicU64::new(0));
    {
        let (case, since, out) = (case.clone(), since.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            let number = case.load(Ordering::SeqCst);
            let started = since.load(Ordering::SeqCst);
            let ran = began.elapsed().as_millis() as u64 - started;
            if number != 0 && ran as f64 > timeout * 1000.0 && case.load(Ordering::SeqCst) == number {
                let mut out = out.lock().unwrap();
                if case.load(Ordering::SeqCst) == number {
                    writeln!(out, "{}", json!({ "hang": timeout })).unwrap();
                    out.flush().unwrap();
                    std::process::exit(9);
                }
            }
        });
    }
    std::panic::set_hook(Box::new(|_| ()));

    let cases = BufReader::new(File::open(&args[2]).unwrap());
    // The library runs in threads with 2 MB of stack; so do the cases.
    let worker = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let mut stuck = 0;
        for (number, line) in cases.lines().enumerate().skip(start) {
            let value: Value = serde_json::from_str(&line.unwrap()).expect("a JSON case");
            since.store(began.elapsed().as_millis() as u64, Ordering::SeqCst);
            case.store(number as u64 + 1, Ordering::SeqCst);
            let result = match catch_unwind(AssertUnwindSafe(|| run(&value))) {
                Ok(it) => json!({ "ok": it }),
                Err(panic) => json!({ "panic": util::panic_text(&*panic) }),
            };
            let mut out = out.lock().unwrap();
            case.store(0, Ordering::SeqCst);
            let mut line = serde_json::to_vec(&result).unwrap();
            line.push(b'\n');
            out.write_all(&line).unwrap();
            // every case that gets stuck takes long; a few of them say enough
            stuck += !result["ok"]["stuck"].is_null() as u32;
            if stuck == 3 {
                std::process::exit(10);
            }
        }
    });
    match worker.unwrap().join() {
        Ok(()) => std::process::exit(0),
        Err(panic) => {
            eprintln!("{}", util::panic_text(&*panic));
            std::process::exit(2)
        }
    }
}
