//! Property-based checks for imap-codec. See /verif/DESIGN.md.
#![allow(clippy::type_complexity, dead_code, unreachable_patterns)]

mod alloc;
mod gen;
mod props;
mod refp;
mod tape;
mod util;
mod wire;

use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use tape::{hash_bytes, mix, shrink, Src};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Per-thread bookkeeping handed to a property.
#[derive(Default)]
pub struct Cx {
    nontrivial: bool,
    fp: u64,
    sample: Option<String>,
    labels: BTreeMap<&'static str, u64>,
    want_sample: bool,
}

impl Cx {
    /// Mark the case as non-trivial, identified by `fp` bytes for counting distinct ones.
    pub fn nontrivial(&mut self, fp: &[u8]) {
        self.nontrivial = true;
        self.fp = mix(self.fp, hash_bytes(fp));
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

pub type PropFn = fn(&mut Src, &mut Cx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub f: PropFn,
}

fn run_case(p: &Prop, src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (p.f)(src, cx))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            Err(format!("panic: {m} at {loc}"))
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = loc);
    }));
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed, hash_bytes(id.as_bytes())), i)
}

fn on_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

/// The default stack size of a Rust thread.
const STACK: usize = 2 * 1024 * 1024;

fn write_tape(path: &Path, id: &str, tape: &[u64], msg: &str) {
    let mut o = format!("# property {id}\n# {}\n", msg.replace('\n', "\n# "));
    for t in tape {
        let _ = writeln!(o, "{t}");
    }
    std::fs::write(path, o).unwrap();
}

fn read_tape(path: &str) -> Vec<u64> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .map(|l| l.trim().parse().unwrap())
        .collect()
}

/// Runs all cases in this process, in parallel.
fn worker(p: &Prop, a: &Args) -> i32 {
    let seed = a.num("--seed", 1);
    let cases = a.num("--cases", 1000);
    let threads = a.num("--threads", 8);
    let deadline = Instant::now() + Duration::from_secs(a.num("--deadline", 600));
    let work = PathBuf::from(a.get("--work").unwrap());
    let slots = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(work.join("slots"))
        .unwrap();
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<(u64, Vec<u64>, String)>> = Mutex::new(vec![]);
    let merged: Mutex<(HashSet<u64>, BTreeMap<&'static str, u64>, BTreeMap<u64, String>)> =
        Mutex::new(Default::default());
    const BATCH: u64 = 64;
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, done, stop, fails, merged, slots) =
                (&next, &done, &stop, &fails, &merged, &slots);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut seen = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples = BTreeMap::new();
                    'outer: loop {
                        let b = next.fetch_add(BATCH, Ordering::Relaxed);
                        if b >= cases {
                            break;
                        }
                        for i in b..(b + BATCH).min(cases) {
                            if stop.load(Ordering::Relaxed) || (i % 16 == 0 && Instant::now() > deadline) {
                                break 'outer;
                            }
                            let _ = slots.write_at(&(i + 1).to_le_bytes(), t * 8);
                            let mut src = Src::random(case_seed(seed, p.id, i));
                            let mut cx = Cx {
                                // a spread of samples over the run
                                want_sample: i < 3 || (i % (cases / 8).max(1)) == 7,
                                ..Default::default()
                            };
                            let r = run_case(p, &mut src, &mut cx);
                            done.fetch_add(1, Ordering::Relaxed);
                            if cx.nontrivial {
                                seen.insert(cx.fp);
                            }
                            for (k, v) in cx.labels {
                                *labels.entry(k).or_default() += v;
                            }
                            if let Some(sm) = cx.sample {
                                samples.insert(i, sm);
                            }
                            if let Err(m) = r {
                                fails.lock().unwrap().push((i, src.tape, m));
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    let _ = slots.write_at(&0u64.to_le_bytes(), t * 8);
                    let mut m = merged.lock().unwrap();
                    m.0.extend(seen);
                    for (k, v) in labels {
                        *m.1.entry(k).or_default() += v;
                    }
                    m.2.extend(samples);
                })
                .unwrap();
        }
    });
    let (seen, labels, samples) = merged.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.1.len());
    let mut viol = String::from("null");
    if let Some((i, tape, msg)) = fails.into_iter().next() {
        let (tape, msg) = on_stack(|| shrink_in_process(p, tape, msg));
        let path = work.join("replay.tape");
        write_tape(&path, p.id, &tape, &msg);
        viol = format!("{{\"index\":{i},\"tape\":{},\"msg\":{}}}", js(path.to_str().unwrap()), js(&msg));
    }
    let out = format!(
        "{{\"property\":{},\"cases_planned\":{cases},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"labels\":{{{}}},\"samples\":[{}],\"violation\":{viol}}}\n",
        js(p.id),
        done.load(Ordering::Relaxed),
        seen.len(),
        js(p.rule),
        labels.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
        samples.values().take(12).map(|v| js(&trunc(v))).collect::<Vec<_>>().join(","),
    );
    std::fs::write(a.get("--out").unwrap(), out).unwrap();
    if viol == "null" {
        0
    } else {
        1
    }
}

fn trunc(s: &str) -> String {
    if s.len() <= 600 {
        return s.to_string();
    }
    let mut e = 600;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

fn shrink_in_process(p: &Prop, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    // Only accept shrunk cases that fail with the same kind of message (text before the first ':').
    let kind = |m: &str| m.split(':').next().unwrap_or("").to_string();
    let want = kind(&msg);
    let mut best = msg;
    let t = shrink(tape, 20_000, Instant::now() + Duration::from_secs(40), |c| {
        let mut s = Src::replay(c.to_vec());
        match run_case(p, &mut s, &mut Cx::default()) {
            Err(m) if kind(&m) == want => {
                best = m;
                Some(s.tape)
            }
            _ => None,
        }
    });
    // `best` may stem from a rejected larger candidate; recompute.
    let mut s = Src::replay(t.clone());
    if let Err(m) = run_case(p, &mut s, &mut Cx::default()) {
        best = m;
    }
    (t, best)
}

enum One {
    Pass,
    Fail,
    Crash(String),
    Timeout,
}

/// Runs one tape in a child process.
fn one_in_child(id: &str, tape: &[u64], work: &Path, secs: u64) -> One {
    let tp = work.join("one.tape");
    write_tape(&tp, id, tape, "");
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["replay", id, tp.to_str().unwrap()])
        .stdout(Stdio::null()) // not a pipe: a long sample would fill it and block the child
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            if let Some(sig) = st.signal() {
                return One::Crash(format!("process died with signal {sig} (abort or stack overflow)"));
            }
            return match st.code() {
                Some(0) => One::Pass,
                _ => One::Fail,
            };
        }
        if Instant::now() > end {
            let _ = ch.kill();
            let _ = ch.wait();
            return One::Timeout;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// Supervises the worker, turning a process death into a violation when one case alone reproduces it.
fn supervise(p: &Prop, a: &Args) -> i32 {
    let work = PathBuf::from(a.get("--work").unwrap());
    std::fs::create_dir_all(&work).unwrap();
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    args[0] = "worker".into();
    let limit = Duration::from_secs(a.num("--deadline", 600) + 120);
    let mut ch = Command::new(std::env::current_exe().unwrap()).args(&args).spawn().unwrap();
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break Some(st);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    if let Some(st) = st {
        if st.signal().is_none() {
            return st.code().unwrap_or(2);
        }
    }
    // The worker died (or did not finish). Look at the cases that were in flight.
    let seed = a.num("--seed", 1);
    let raw = std::fs::read(work.join("slots")).unwrap_or_default();
    let idx: Vec<u64> = raw
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|x| *x != 0)
        .map(|x| x - 1)
        .collect();
    for i in idx {
        // The tape of case i, generated without running it, is not available; the child regenerates it.
        let out = Command::new(std::env::current_exe().unwrap())
            .args(["tapeof", p.id, &seed.to_string(), &i.to_string(), work.join("crash.tape").to_str().unwrap()])
            .stderr(Stdio::null())
            .stdout(Stdio::null())
            .status();
        // `tapeof` writes the tape incrementally before dying.
        let _ = out;
        let crash = work.join("crash.tape");
        if !crash.exists() {
            continue;
        }
        let tape = read_tape(crash.to_str().unwrap());
        let _ = std::fs::remove_file(&crash);
        if let One::Crash(m) = one_in_child(p.id, &tape, &work, 20) {
            let t = shrink(tape, 400, Instant::now() + Duration::from_secs(60), |c| {
                matches!(one_in_child(p.id, c, &work, 5), One::Crash(_)).then(|| c.to_vec())
            });
            let path = work.join("replay.tape");
            write_tape(&path, p.id, &t, &m);
            let o = format!(
                "{{\"property\":{},\"cases_planned\":{},\"evaluations\":{},\"distinct_nontrivial\":0,\"rule\":{},\"labels\":{{}},\"samples\":[],\"violation\":{{\"index\":{i},\"tape\":{},\"msg\":{}}}}}\n",
                js(p.id), a.num("--cases", 0), i + 1, js(p.rule), js(path.to_str().unwrap()), js(&m)
            );
            std::fs::write(a.get("--out").unwrap(), o).unwrap();
            return 1;
        }
    }
    eprintln!("worker did not finish and no single case reproduces it");
    2
}

fn main() {
    let a = Args(std::env::args().skip(1).collect());
    let cmd = a.0.first().map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    #[cfg(feature = "taggen")]
    if cmd == "tags" {
        for t in props::release::tags::first_tags() {
            println!("{t}");
        }
        return;
    }
    if cmd == "known" {
        install_hook();
        // Prints one line per known finding that still reproduces: "<id>\t<description>"
        for (id, desc) in on_stack(|| props::known::probe(a.0.get(1).map(|s| s.as_str()))) {
            println!("{id}\t{desc}");
        }
        return;
    }
    let id = a.0.get(1).cloned().unwrap_or_default();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?} in this configuration");
        std::process::exit(3);
    };
    let code = match cmd {
        "run" => supervise(&p, &a),
        "worker" => {
            install_hook();
            worker(&p, &a)
        }
        "tapeof" => {
            // Record the tape of case <i> even when running it kills the process.
            install_hook();
            let seed = a.0[2].parse().unwrap();
            let i = a.0[3].parse().unwrap();
            tape::set_spill(&a.0[4]);
            on_stack(|| {
                let mut src = Src::random(case_seed(seed, p.id, i));
                let _ = run_case(&p, &mut src, &mut Cx::default());
            });
            0
        }
        "replay" => {
            install_hook();
            let t = read_tape(&a.0[2]);
            on_stack(|| {
                let mut s = Src::replay(t);
                let mut cx = Cx { want_sample: true, ..Default::default() };
                let r = run_case(&p, &mut s, &mut cx);
                if let Some(sm) = &cx.sample {
                    println!("case: {sm}");
                }
                match r {
                    Ok(()) => {
                        println!("PASS");
                        0
                    }
                    Err(m) => {
                        println!("FAIL {m}");
                        1
                    }
                }
            })
        }
        _ => {
            eprintln!("usage: vharness run|replay|list|known ...");
            3
        }
    };
    std::process::exit(code);
}
