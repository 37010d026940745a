//! The server's event loop, run in this process under control of a schedule.
//!
//! The main loop and the worker threads stop at the points of move_language_server::verif; the
//! schedule decides who goes on. The result tells what the client saw, turn by turn.
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::thread::{self, ThreadId};
use std::time::{Duration, Instant};

use lsp_server::{Connection, Message};
use move_language_server::{config::Config, verif};
use paths::AbsPathBuf;
use serde_json::{json, Value};

use crate::util::*;

/// How long anything may take before the server counts as stuck.
fn patience() -> Duration {
    Duration::from_secs(20)
}

fn pool_size() -> usize {
    thread::available_parallelism().map_or(1, |it| it.get())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Running,
    Start,
    File,
    Ready,
    Sent,
    Dead,
}

struct Worker {
    thread: ThreadId,
    at: At,
    go: bool,
    /// do not stop before the result is ready
    hurry: bool,
    /// do not stop at all
    open: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Main {
    Running,
    Idle,
    Apply,
    Ended,
}

struct State {
    main: Main,
    main_go: bool,
    idle: Value,
    turns: usize,
    spawned: usize,
    workers: Vec<Worker>,
    current: HashMap<ThreadId, usize>,
    /// the main thread's directory in /proc
    proc: PathBuf,
    free: bool,
    /// do not stop tasks at their start
    hurry: bool,
    /// results sent without a turn of the main thread for them
    leaked: usize,
    panics: Vec<String>,
    main_panicked: bool,
}

struct Control {
    state: Mutex<State>,
    changed: Condvar,
}

impl Control {
    fn lock(&self) -> MutexGuard<State> {
        self.state.lock().unwrap_or_else(|it| it.into_inner())
    }

    /// Waits until the condition holds; false if that takes too long.
    fn until(&self, limit: Duration, cond: impl Fn(&State) -> bool) -> bool {
        let end = Instant::now() + limit;
        let mut state = self.lock();
        while !cond(&state) {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            state = self.changed.wait_timeout(state, end - now).unwrap().0;
        }
        true
    }

    fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        let res = f(&mut self.lock());
        self.changed.notify_all();
        res
    }

    /// A point reached by a thread of the server.
    fn point(&self, name: &'static str, value: Value) {
        let thread = thread::current().id();
        let mut state = self.lock();
        match name {
            "idle" | "apply" => {
                state.main = if name == "idle" { Main::Idle } else { Main::Apply };
                if name == "idle" {
                    state.idle = value;
                    state.turns += 1;
                }
                self.changed.notify_all();
                while !state.main_go && !state.free {
                    state = self.changed.wait(state).unwrap();
                }
                state.main_go = false;
                if !(state.free && name == "idle") {
                    state.main = Main::Running;
                }
                self.changed.notify_all();
            }
            "received" => {
                state.main = Main::Running;
                if value == "task" {
                    state.leaked = 0;
                }
            }
            "spawn" => state.spawned += 1,
            "task_start" | "task_file" | "task_ready" => {
                if name == "task_start" {
                    let number = state.workers.len();
                    let hurry = state.free || state.hurry;
                    state.workers.push(Worker { thread, at: At::Start, go: false, hurry, open: false });
                    state.current.insert(thread, number);
                }
                let number = match state.current.get(&thread) {
                    Some(it) => *it,
                    None => return,
                };
                let at = match name {
                    "task_start" => At::Start,
                    "task_file" => At::File,
                    _ => At::Ready,
                };
                state.workers[number].at = at;
                self.changed.notify_all();
                loop {
                    let worker = &state.workers[number];
                    if state.free || worker.go || worker.open || (worker.hurry && at != At::Ready) {
                        break;
                    }
                    state = self.changed.wait(state).unwrap();
                }
                state.workers[number].go = false;
                state.workers[number].at = At::Running;
            }
            "task_sent" => {
                if let Some(number) = state.current.remove(&thread) {
                    state.workers[number].at = At::Sent;
                    if state.workers[number].open {
                        state.leaked += 1;
                    }
                }
            }
            _ => (),
        }
        drop(state);
        self.changed.notify_all();
    }

    /// A thread of the server panicked.
    fn panicked(&self, message: String) {
        let thread = thread::current().id();
        let mut state = self.lock();
        if let Some(number) = state.current.remove(&thread) {
            state.workers[number].at = At::Dead;
        } else if thread::current().name() == Some("main loop") {
            state.main_panicked = true;
        }
        state.panics.push(message);
        drop(state);
        self.changed.notify_all();
    }
}

/// If the thread is asleep: how often it has gone to sleep so far.
fn asleep(proc: &Path) -> Option<u64> {
    let status = std::fs::read_to_string(proc.join("status")).ok()?;
    let field = |name: &str| status.lines().find_map(|it| it.strip_prefix(name)).map(str::trim);
    if !field("State:")?.starts_with('S') {
        return None;
    }
    let count = |name| field(name).and_then(|it| it.parse::<u64>().ok());
    Some(count("voluntary_ctxt_switches:")? + count("nonvoluntary_ctxt_switches:")?)
}

struct Driver {
    control: Arc<Control>,
    client: Connection,
    main: Option<thread::JoinHandle<Result<(), String>>>,
    turns: Vec<Value>,
}

type Step = Result<(), String>;

impl Driver {
    fn collect(&mut self, step: usize) {
        let mut messages = Vec::new();
        while let Ok(message) = self.client.receiver.try_recv() {
            messages.push(serde_json::to_value(&message).unwrap());
        }
        let (idle, main) = self.control.with(|it| (it.idle.clone(), it.main));
        self.turns.push(json!({
            "step": step, "messages": messages, "state": idle, "ended": main == Main::Ended,
        }));
    }

    /// Lets the main thread make one turn.
    fn turn(&mut self, what: &str) -> Step {
        let control = self.control.clone();
        let turns = control.with(|it| {
            if it.main == Main::Idle {
                it.main_go = true;
                it.main = Main::Running;
            }
            it.turns
        });
        let arrived = |it: &State| {
            it.main_panicked || it.main == Main::Ended || it.main == Main::Apply || (it.main == Main::Idle && it.turns > turns)
        };
        loop {
            if !control.until(patience(), arrived) {
                return Err(format!("the main thread does not finish its turn: {}", what));
            }
            if control.with(|it| it.main_panicked) {
                return Err(format!("the main thread panicked: {}", what));
            }
            if control.with(|it| it.main) != Main::Apply {
                break;
            }
            // The change waits for the snapshots of the running tasks, and cancels them.
            let running = control.with(|it| {
                it.main_go = true;
                it.main = Main::Running;
                // A full pool must not keep waiting tasks, with their snapshots, from starting.
                let done = it.workers.iter().filter(|w| matches!(w.at, At::Sent | At::Dead)).count();
                if it.spawned - done >= pool_size() {
                    for worker in &mut it.workers {
                        worker.open |= worker.at == At::Ready;
                    }
                }
                it.workers.iter().any(|w| matches!(w.at, At::Start | At::File | At::Running))
                    || it.workers.len() < it.spawned
            });
            if running {
                thread::sleep(Duration::from_millis(3));
                control.with(|it| {
                    for worker in &mut it.workers {
                        if matches!(worker.at, At::Start | At::File | At::Running) {
                            worker.hurry = true;
                        }
                    }
                    it.hurry = it.workers.len() < it.spawned;
                });
            }
        }
        control.with(|it| it.hurry = false);
        // the tasks spawned in this turn
        control.until(Duration::from_secs(2), |it| {
            let busy = it.workers.iter().filter(|w| !matches!(w.at, At::Sent | At::Dead)).count();
            it.workers.len() >= it.spawned || busy >= pool_size()
        });
        Ok(())
    }

    fn send(&mut self, step: usize, messages: &[Value]) -> Step {
        let control = self.control.clone();
        assert!(!control.with(|it| it.free), "the threads cannot be held any more");
        for message in messages {
            let message: Message = serde_json::from_value(message.clone()).expect("an LSP message");
            if self.client.sender.send(message).is_err() {
                return Ok(()); // the server has ended
            }
        }
        while !self.client.sender.is_empty() && control.with(|it| it.main) != Main::Ended {
            self.turn("a message was sent")?;
            self.collect(step);
        }
        Ok(())
    }

    /// Lets a worker compute the diagnostics of some more files.
    fn run(&mut self, task: usize, files: usize) -> Step {
        let control = self.control.clone();
        if control.with(|it| it.workers.len()) <= task {
            return Ok(());
        }
        let stopped = |it: &State| it.workers[task].at != At::Running;
        for _ in 0..files {
            // from the start to the first file, or from one file to the next
            loop {
                let at = control.with(|it| it.workers[task].at);
                if !matches!(at, At::Start | At::File) {
                    return Ok(());
                }
                control.with(|it| {
                    it.workers[task].at = At::Running;
                    it.workers[task].go = true;
                });
                if !control.until(patience(), stopped) {
                    return Err(format!("task {} does not finish", task));
                }
                if at == At::File {
                    break;
                }
            }
        }
        Ok(())
    }

    fn deliver(&mut self, step: usize, tasks: &[usize]) -> Step {
        let control = self.control.clone();
        let mut any = false;
        for &task in tasks {
            self.run(task, usize::MAX)?;
            let ready = control.with(|it| match it.workers.get_mut(task) {
                Some(worker) if worker.at == At::Ready => {
                    worker.at = At::Running;
                    worker.go = true;
                    true
                }
                _ => false,
            });
            if !ready {
                continue;
            }
            any = true;
            if !control.until(patience(), |it| matches!(it.workers[task].at, At::Sent | At::Dead)) {
                return Err(format!("the result of task {} is not sent", task));
            }
        }
        if any && control.with(|it| it.main) == Main::Idle {
            self.turn("tasks were ready")?;
            self.collect(step);
        }
        Ok(())
    }

    /// Runs everything that is still to be done.
    fn settle(&mut self, step: usize) -> Step {
        let control = self.control.clone();
        loop {
            let next = control.with(|it| it.workers.iter().position(|w| !matches!(w.at, At::Sent | At::Dead)));
            match next {
                Some(task) => {
                    // a task that is being run by nobody
                    if control.with(|it| it.workers[task].at) == At::Running
                        && !control.until(patience(), |it| it.workers[task].at != At::Running)
                    {
                        return Err(format!("task {} does not finish", task));
                    }
                    self.deliver(step, &[task])?
                }
                None => {
                    let all = |it: &State| it.workers.len() >= it.spawned;
                    if !control.with(|it| all(it)) && !control.until(patience(), all) {
                        return Err("a task is never run".to_string());
                    }
                    if control.with(|it| it.workers.iter().all(|w| matches!(w.at, At::Sent | At::Dead))) {
                        break;
                    }
                }
            }
        }
        // results that nobody asked for
        for _ in 0..50 {
            if control.with(|it| it.leaked == 0 || it.main == Main::Ended) {
                break;
            }
            self.send(step, &[json!({"method": "$/nothing"})])?;
        }
        Ok(())
    }

    /// Lets all threads run as they like until nothing happens any more.
    fn free(&mut self, step: usize, messages: &[Value], delays: &[u64]) -> Step {
        let control = self.control.clone();
        control.with(|it| it.free = true);
        for (n, message) in messages.iter().enumerate() {
            let message: Message = serde_json::from_value(message.clone()).expect("an LSP message");
            if self.client.sender.send(message).is_err() {
                break;
            }
            match delays.get(n) {
                None | Some(0) => (),
                Some(1) => thread::yield_now(),
                Some(&micros) => thread::sleep(Duration::from_micros(micros)),
            }
        }
        // The main thread is asleep, with nothing left that could wake it.
        let quiet = |client: &Connection| {
            let (idle, ended, turns, proc) = control.with(|it| {
                (
                    it.main == Main::Idle
                        && it.workers.len() >= it.spawned
                        && it.workers.iter().all(|w| matches!(w.at, At::Sent | At::Dead)),
                    it.main == Main::Ended,
                    it.turns,
                    it.proc.clone(),
                )
            });
            let asleep = if ended { Some(0) } else { asleep(&proc) };
            ((ended || idle && client.sender.is_empty()) && asleep.is_some(), turns, asleep)
        };
        let end = Instant::now() + patience();
        loop {
            let seen = quiet(&self.client);
            if seen.0 {
                thread::sleep(Duration::from_millis(5));
                if quiet(&self.client) == seen {
                    break;
                }
            } else {
                thread::sleep(Duration::from_millis(1));
            }
            if Instant::now() > end {
                return Err("the server does not become idle".to_string());
            }
        }
        self.collect(step);
        Ok(())
    }
}

/// {utf8: bool, caps: {..}?, steps: [..], state: bool}
pub fn server(case: &Value) -> Value {
    let control = Arc::new(Control {
        state: Mutex::new(State {
            main: Main::Running,
            main_go: false,
            idle: Value::Null,
            turns: 0,
            spawned: 0,
            workers: Vec::new(),
            current: HashMap::new(),
            proc: PathBuf::new(),
            free: false,
            hurry: false,
            leaked: 0,
            panics: Vec::new(),
            main_panicked: false,
        }),
        changed: Condvar::new(),
    });
    {
        let control = control.clone();
        verif::observe(Some(Arc::new(move |name, value| control.point(name, value))));
    }
    let harness = thread::current().id();
    {
        let control = control.clone();
        std::panic::set_hook(Box::new(move |info| {
            if thread::current().id() != harness {
                control.panicked(info.to_string());
            }
        }));
    }
    let caps: lsp_types::ClientCapabilities = match case.get("caps") {
        Some(caps) => serde_json::from_value(caps.clone()).expect("client capabilities"),
        None => Default::default(),
    };
    let (server, client) = Connection::memory();
    let config = Config::new(AbsPathBuf::assert("/".into()), caps);
    let main = {
        let control = control.clone();
        thread::Builder::new()
            .stack_size(8 << 20)
            .name("main loop".to_string())
            .spawn(move || {
                struct Ended(Arc<Control>);
                impl Drop for Ended {
                    fn drop(&mut self) {
                        self.0.with(|it| it.main = Main::Ended);
                    }
                }
                let own = std::fs::read_link("/proc/thread-self").expect("a thread of its own");
                control.with(|it| it.proc = PathBuf::from("/proc").join(own));
                let _ended = Ended(control);
                move_language_server::main_loop(config, server).map_err(|it| it.to_string())
            })
            .unwrap()
    };
    let mut driver = Driver { control: control.clone(), client, main: Some(main), turns: Vec::new() };
    let keep_state = case["state"].as_bool().unwrap_or(false);

    let mut stuck = None;
    if !control.until(patience(), |it| matches!(it.main, Main::Idle | Main::Ended)) {
        stuck = Some((0, "the server does not start".to_string()));
    }
    if stuck.is_none() {
        driver.collect(0);
        for (number, step) in arr(case, "steps").iter().enumerate() {
            let list = |key: &str| -> Vec<usize> {
                arr(step, key).iter().map(|it| it.as_u64().unwrap() as usize).collect()
            };
            let done = match str_(step, "do") {
                "send" => driver.send(number + 1, arr(step, "msgs")),
                "run" => driver.run(int(step, "task") as usize, int(step, "files") as usize),
                "deliver" => driver.deliver(number + 1, &list("tasks")),
                "settle" => driver.settle(number + 1),
                "free" => {
                    let delays: Vec<u64> = list("delays").into_iter().map(|it| it as u64).collect();
                    driver.free(number + 1, arr(step, "msgs"), &delays)
                }
                other => panic!("no step {}", other),
            };
            if let Err(err) = done {
                driver.collect(number + 1);
                stuck = Some((number + 1, err));
                break;
            }
        }
    }
    // Everything may run to its end now: the client goes away.
    control.with(|it| it.free = true);
    let Driver { client, main, mut turns, .. } = driver;
    let Connection { sender, receiver } = client;
    drop(sender);
    let ended = control.until(patience(), |it| it.main == Main::Ended);
    drop(receiver);
    let end = if ended {
        match main.unwrap().join() {
            Ok(Ok(())) => json!({"result": "ok"}),
            Ok(Err(err)) => json!({ "result": "error", "text": err }),
            Err(panic) => json!({"result": "panic", "text": panic_text(&*panic)}),
        }
    } else {
        json!({"result": "stuck"})
    };
    verif::observe(None);
    let panics = control.with(|it| it.panics.clone());
    std::panic::set_hook(Box::new(|_| ()));
    if !keep_state {
        for turn in &mut turns {
            turn["state"] = Value::Null;
        }
    }
    json!({
        "turns": turns,
        "stuck": stuck.map(|(step, what)| json!({ "step": step, "what": what })),
        "end": end,
        "panics": panics,
    })
}
