//! Runs many simulated executions on all cores, finds the first violation, minimises it, writes it
//! down and replays it. What is explored depends on VERIF_SEED alone, not on the number of workers.
use crate::ctx::{Ctx, Violation};
use crate::props::{self, Prop};
use crate::tape::{Tape, fnv, mix};
use crate::{rt, simfs};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const HANG_S: u64 = 100;

static LISTED: OnceLock<Vec<(String, String, String)>> = OnceLock::new();

/// (id, property, text) of the known findings which are not fixed
fn known_findings() -> &'static Vec<(String, String, String)> {
    LISTED.get_or_init(|| {
        let path = std::env::var("OSMSIM_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
        let text = std::fs::read_to_string(path).unwrap_or_default();
        let mut v = Vec::new();
        for l in text.lines() {
            // known: id=K1 property=C15 what fails
            if let Some(r) = l.strip_prefix("known: id=") {
                let mut it = r.splitn(3, ' ');
                let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                v.push((a.to_string(), b.trim_start_matches("property=").to_string(), c.to_string()));
            }
        }
        v
    })
}

pub fn listed(id: &str) -> bool {
    known_findings().iter().any(|k| k.0 == id)
}

/// one finished run
struct Outcome {
    violation: Option<Violation>,
    tape: Vec<u64>,
    hash: u64,
    ctx: Ctx,
    /// the run could not be stopped, this process must end
    hung: bool,
}

/// in a thread of its own, so that nothing thread-local survives into the next run
fn execute(p: &Prop, seed: u64, tape: Tape, tracing: bool, deadline: Duration) -> Outcome {
    simfs::seed(seed);
    simfs::SPIN.store(0, Ordering::SeqCst);
    let ctx = Ctx::new(tape, tracing);
    let (tx, rx) = mpsc::channel();
    let run = p.run;
    let c = ctx.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let r = match rt::guard(|| run(&c)) {
                Ok(r) => r,
                Err(s) => rt::bad(&s, "run"),
            };
            let _ = tx.send(r);
        })
        .unwrap_or_else(|e| die(&format!("cannot start a thread: {e}")));
    let mut patience = rt::Patience::start();
    let mut hung = None;
    let res = loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(r) => break r.err(),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if simfs::SPIN.load(Ordering::SeqCst) != 0 {
                    hung = Some("reads a file on and on without progress");
                } else if patience.spent() > deadline {
                    hung = Some("does not end");
                }
                if let Some(what) = hung {
                    break Some(Violation { class: "hang".into(), msg: what.into() });
                }
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => break Some(Violation { class: "panic".into(), msg: "the run's thread died".into() }),
        }
    };
    if hung.is_none() {
        let _ = h.join();
    }
    let (tape, hash) = match ctx.0.try_lock() {
        Ok(g) => (g.tape.rec.clone(), g.hash),
        Err(_) if hung.is_some() => (Vec::new(), 0),
        Err(_) => {
            let g = ctx.lock();
            (g.tape.rec.clone(), g.hash)
        }
    };
    Outcome { violation: res, tape, hash, ctx, hung: hung.is_some() }
}

pub fn die(m: &str) -> ! {
    eprintln!("harness error: {m}");
    std::process::exit(3);
}

fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed) ^ fnv(7, prop.as_bytes()) ^ mix(index ^ 0x5151))
}

/// what the system calls of hash seeds see: the same for a tape however it came to be
fn sys_seed(prop: &str) -> u64 {
    mix(fnv(11, prop.as_bytes()))
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("no property {id}")))
}

struct Args(BTreeMap<String, String>, Vec<String>);

impl Args {
    fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut rest = Vec::new();
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            match a.strip_prefix("--") {
                Some(k) => {
                    m.insert(k.to_string(), it.next().unwrap_or_default());
                }
                None => rest.push(a),
            }
        }
        Args(m, rest)
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| die(&format!("--{k} {v}"))))
    }
    fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn pos(&self, i: usize) -> &str {
        self.1.get(i).map(|s| s.as_str()).unwrap_or_else(|| die("argument missing"))
    }
}

pub fn main() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        // a run which asks for too much memory dies alone
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
    let a = Args::parse();
    match a.1.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("worker") => worker(&a),
        Some("one") => one(&a),
        Some("minimise") => minimise(&a),
        Some("replay") => replay(&a),
        Some("digest") => digest(&a),
        Some("list") => {
            for p in props::all() {
                println!("{} quick {} thorough {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => die("usage: osmsim check|replay|digest|list ..."),
    }
}

// ---- shared between the processes of one check

struct Shared(*mut AtomicU64);
unsafe impl Send for Shared {}

impl Shared {
    fn open(path: &Path) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap_or_else(|e| die(&format!("{path:?}: {e}")));
        f.set_len(4096).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED {
            die("mmap");
        }
        Shared(p as *mut AtomicU64)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        assert!(i < 512);
        unsafe { &*self.0.add(i) }
    }
    /// index of the first violation so far
    fn min(&self) -> &AtomicU64 {
        self.at(0)
    }
    /// what worker w is running, plus one
    fn slot(&self, w: usize) -> &AtomicU64 {
        self.at(8 + w)
    }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    io_steps: u64,
    io_bytes: u64,
    objects: u64,
    draws: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<(u64, String)>,
}

impl Stats {
    fn add(&mut self, index: u64, o: &Outcome) {
        let g = o.ctx.lock();
        self.runs += 1;
        self.io_steps += g.io_steps;
        self.io_bytes += g.io_bytes;
        self.objects += g.objects;
        self.draws += g.tape.rec.len() as u64;
        let injected: u64 = g.faults.values().sum();
        if g.objects > 0 && injected > 0 {
            self.nontrivial += 1;
            self.hashes.insert(g.hash);
        }
        for (k, v) in &g.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &g.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        for k in &g.known {
            *self.known.entry(k.to_string()).or_default() += 1;
        }
        if self.samples.len() < 3 && (injected > 0 || index < 64) {
            self.samples.push((index, g.summary.clone()));
        }
    }
}

fn worker(a: &Args) -> i32 {
    let p = find(a.pos(1));
    let w = a.num("w", 0) as usize;
    let n = a.num("n", 1);
    let runs = a.num("runs", 0);
    let from = a.num("from", 0);
    let seed = a.num("seed", 1);
    let cap = Duration::from_secs(a.num("cap", 3600));
    let dir = PathBuf::from(a.str("dir", ""));
    let sh = Shared::open(&dir.join("shared"));
    let start = Instant::now();
    let mut st = Stats::default();
    let mut capped = false;
    let mut i = w as u64;
    while i < from {
        i += n;
    }
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let mut hung = false;
    let slow: u64 = std::env::var("OSMSIM_SLOW_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    while i < runs {
        if sh.min().load(Ordering::SeqCst) <= i {
            break;
        }
        if start.elapsed() > cap {
            capped = true;
            break;
        }
        sh.slot(w).store(i + 1, Ordering::SeqCst);
        let s = run_seed(seed, p.id, i);
        let t0 = Instant::now();
        let o = execute(&p, sys_seed(p.id), Tape::fresh(s), false, Duration::from_secs(HANG_S));
        if slow > 0 && t0.elapsed().as_millis() as u64 > slow {
            eprintln!("run {i}: {} ms: {}", t0.elapsed().as_millis(), o.ctx.0.try_lock().map(|g| g.summary.clone()).unwrap_or_default());
        }
        if let Some(v) = &o.violation {
            sh.min().fetch_min(i, Ordering::SeqCst);
            let tape: Vec<u64> = if o.tape.is_empty() { spill_of(&p, s) } else { o.tape.clone() };
            let j = json!({"property": p.id, "index": i, "run_seed": s, "class": v.class, "msg": v.msg, "tape": tape, "w": w, "n": n});
            std::fs::write(dir.join(format!("viol_{w}.json")), j.to_string()).unwrap();
            hung = o.hung;
            break;
        }
        st.add(i, &o);
        i += n;
    }
    sh.slot(w).store(0, Ordering::SeqCst);
    let mut hb = Vec::with_capacity(st.hashes.len() * 8);
    for h in &st.hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    let tag = a.num("part", 0);
    std::fs::write(dir.join(format!("hash_{w}_{tag}")), hb).unwrap();
    let j = json!({
        "runs": st.runs, "nontrivial": st.nontrivial, "io_steps": st.io_steps, "io_bytes": st.io_bytes, "objects": st.objects, "draws": st.draws,
        "faults": st.faults, "probes": st.probes, "known": st.known, "samples": st.samples, "capped": capped,
    });
    std::fs::write(dir.join(format!("stats_{w}_{tag}.json")), j.to_string()).unwrap();
    if hung {
        unsafe { libc::_exit(0) };
    }
    0
}

/// the draws of a run whose process dies or hangs
fn spill_of(p: &Prop, run_seed: u64) -> Vec<u64> {
    let path = scratch(&format!("spill_{}", std::process::id()));
    let mut c = Command::new(exe())
        .args(["one", p.id, "--run-seed", &run_seed.to_string(), "--spill", path.to_str().unwrap(), "--hang", "20"])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| die(&format!("spawn: {e}")));
    wait(&mut c, Duration::from_secs(40));
    let b = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap_or_else(|e| die(&format!("{e}")))
}

/// exit code; None if it had to be killed; Some(-signal) if it died
fn wait(c: &mut Child, max: Duration) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    let mut patience = rt::Patience::start();
    loop {
        let spent = patience.spent();
        match c.try_wait() {
            Ok(Some(s)) => return Some(s.code().unwrap_or_else(|| -s.signal().unwrap_or(1))),
            Ok(None) if spent > max => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(3)),
            Err(e) => die(&format!("wait: {e}")),
        }
    }
}

fn scratch_root() -> PathBuf {
    let d = PathBuf::from(std::env::var("OSMSIM_SCRATCH").unwrap_or_else(|_| "/verif/evidence/tmp".into()));
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn scratch(name: &str) -> PathBuf {
    scratch_root().join(name)
}

// ---- one run in a process of its own

fn read_json(path: &str) -> Value {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    serde_json::from_str(&t).unwrap_or_else(|e| die(&format!("{path}: {e}")))
}

fn tape_of(j: &Value) -> Vec<u64> {
    j["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default()
}

/// Prints the outcome as JSON. Exit 0: no violation, 1: violation.
fn one(a: &Args) -> i32 {
    let p = find(a.pos(1));
    let mut tape = match a.0.get("file") {
        Some(f) => {
            let j = read_json(f);
            // runs which have to come before in the same process
            for s in j["before"].as_array().unwrap_or(&vec![]) {
                let o = execute(&p, sys_seed(p.id), Tape::fresh(s.as_u64().unwrap_or(0)), false, Duration::from_secs(HANG_S));
                if o.hung {
                    break;
                }
            }
            Tape::replay(tape_of(&j))
        }
        None => Tape::fresh(a.num("run-seed", 0)),
    };
    if let Some(s) = a.0.get("spill") {
        tape.spill = std::fs::File::create(s).ok();
    }
    let o = execute(&p, sys_seed(p.id), tape, a.0.contains_key("trace"), Duration::from_secs(a.num("hang", HANG_S)));
    let (trace, dropped) = match o.ctx.0.try_lock() {
        Ok(g) => (g.trace.clone(), g.trace_dropped),
        Err(_) => (vec![], 0),
    };
    let summary = o.ctx.0.try_lock().map(|g| g.summary.clone()).unwrap_or_default();
    let j = match &o.violation {
        None => json!({"violation": false, "hash": o.hash, "trace": trace, "trace_dropped": dropped, "summary": summary, "draws": o.tape.len()}),
        Some(v) => json!({"violation": true, "class": v.class, "msg": v.msg, "hash": o.hash, "trace": trace, "trace_dropped": dropped, "summary": summary, "draws": o.tape.len()}),
    };
    println!("{j}");
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(if o.violation.is_some() { 1 } else { 0 }) }
}

/// runs a tape in a fresh process: (class, msg, details)
fn one_of(prop: &str, tape: &[u64], before: &[u64], trace: bool, hang: u64) -> Option<(String, String, Value)> {
    let path = scratch(&format!("one_{}_{}.json", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&path, json!({"tape": tape, "before": before}).to_string()).unwrap();
    let out = path.with_extension("out");
    let mut cmd = Command::new(exe());
    let hangs = hang.to_string();
    cmd.args(["one", prop, "--file", path.to_str().unwrap(), "--hang", &hangs]);
    if trace {
        cmd.args(["--trace", "1"]);
    }
    let f = std::fs::File::create(&out).unwrap();
    let mut c = cmd.stdout(f).stderr(Stdio::null()).spawn().unwrap_or_else(|e| die(&format!("spawn: {e}")));
    let code = wait(&mut c, Duration::from_secs(hang + 20 + before.len() as u64 / 10));
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(&out);
    match code {
        Some(0) => None,
        Some(1) => {
            let j: Value = serde_json::from_str(text.trim()).unwrap_or_else(|e| die(&format!("one: {e}: {text}")));
            Some((j["class"].as_str().unwrap_or("").into(), j["msg"].as_str().unwrap_or("").into(), j))
        }
        Some(3) => die("a single run reports a harness error"),
        None => Some(("hang".into(), "the process does not end".into(), json!({}))),
        Some(c) => Some(("abort".into(), death(c), json!({}))),
    }
}
static NEXT: AtomicU64 = AtomicU64::new(0);

fn death(code: i32) -> String {
    if code < 0 { format!("the process dies of signal {}", -code) } else { format!("the process exits with status {code}") }
}

// ---- minimising

fn weight(t: &[u64]) -> (usize, u64) {
    (t.len(), t.iter().fold(0u64, |a, &b| a.saturating_add(64 - b.leading_zeros() as u64)))
}

fn trim(mut t: Vec<u64>) -> Vec<u64> {
    while t.last() == Some(&0) {
        t.pop();
    }
    t
}

/// --in file, --out file (best so far), --secs
fn minimise(a: &Args) -> i32 {
    let j = read_json(&a.str("in", ""));
    let p = find(j["property"].as_str().unwrap_or(""));
    let class = j["class"].as_str().unwrap_or("").to_string();
    let before: Vec<u64> = j["before"].as_array().map(|v| v.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let out = a.str("out", "");
    let until = Instant::now() + Duration::from_secs(a.num("secs", 60));
    let inproc = class != "abort" && class != "hang" && before.is_empty();
    let mut best = trim(tape_of(&j));
    let mut tried = 0u64;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        tried += 1;
        let (ok, rec) = if inproc {
            let o = execute(&p, sys_seed(p.id), Tape::replay(cand), false, Duration::from_secs(10));
            if o.hung {
                // cannot go on in this process
                unsafe { libc::_exit(0) };
            }
            (o.violation.is_some_and(|v| v.class == class), trim(o.tape))
        } else {
            let r = one_of(p.id, &cand, &before, false, 5);
            (r.is_some_and(|v| v.0 == class), trim(cand))
        };
        if ok && weight(&rec) < weight(best) {
            *best = rec;
            let tmp = format!("{out}.tmp");
            let _ = std::fs::write(&tmp, json!({"tape": *best}).to_string());
            let _ = std::fs::rename(&tmp, &out);
            true
        } else {
            false
        }
    };
    loop {
        let start = weight(&best);
        // shorter
        let mut cut = best.len() / 2;
        while cut > 0 && Instant::now() < until {
            if best.len() > cut {
                let c = best[..best.len() - cut].to_vec();
                if attempt(c, &mut best) {
                    continue;
                }
            }
            cut /= 2;
        }
        // without a part
        let mut size = (best.len() / 4).clamp(1, 512);
        loop {
            let mut at = 0;
            while at < best.len() && Instant::now() < until {
                let mut c = best.clone();
                c.drain(at..(at + size).min(c.len()));
                if !attempt(c, &mut best) {
                    at += size;
                }
            }
            if size == 1 || Instant::now() >= until {
                break;
            }
            size /= 2;
        }
        // with zeros
        for size in [32usize, 8, 2, 1] {
            let mut at = 0;
            while at < best.len() && Instant::now() < until {
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[at..end].fill(0);
                    attempt(c, &mut best);
                }
                at += size;
            }
        }
        // with smaller numbers
        let mut at = 0;
        while at < best.len() && Instant::now() < until {
            let v = best[at];
            if v > 1 {
                for x in [1, v / 2, v - 1] {
                    let mut c = best.clone();
                    c[at] = x;
                    if attempt(c, &mut best) {
                        break;
                    }
                }
            }
            at += 1;
        }
        if weight(&best) == start || Instant::now() >= until {
            break;
        }
    }
    println!("tried {tried}, {} draws left", best.len());
    0
}

// ---- the check

fn check(a: &Args) -> i32 {
    attempt(a, true)
}

fn attempt(a: &Args, again: bool) -> i32 {
    let p = find(a.pos(1));
    let tier = a.str("tier", &std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()));
    let seed = a.num("seed", std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
    let thorough = tier == "thorough";
    let runs = a.num("runs", if thorough { p.thorough } else { p.quick });
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let n = a.num("workers", cores.clamp(1, 64));
    let cap = a.num("cap", if thorough { 6 * 3600 } else { 420 });
    let out = PathBuf::from(a.str("out", "/verif/evidence"));
    let _ = std::fs::create_dir_all(&out);
    let dir = scratch(&format!("{}_{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{dir:?}: {e}")));
    println!("property {} seed {seed} tier {tier}: {runs} runs on {n} workers", p.id);
    let start = Instant::now();
    let sh = Shared::open(&dir.join("shared"));
    sh.min().store(u64::MAX, Ordering::SeqCst);
    let spawn = |w: u64, from: u64, part: u64| -> Child {
        let left = cap.saturating_sub(start.elapsed().as_secs());
        Command::new(exe())
            .args(["worker", p.id])
            .args(["--w", &w.to_string(), "--n", &n.to_string(), "--runs", &runs.to_string(), "--seed", &seed.to_string()])
            .args(["--cap", &left.to_string(), "--dir", dir.to_str().unwrap(), "--from", &from.to_string(), "--part", &part.to_string()])
            .spawn()
            .unwrap_or_else(|e| die(&format!("spawn: {e}")))
    };
    let mut kids: Vec<(u64, Child)> = (0..n).map(|w| (w, spawn(w, 0, 0))).collect();
    let mut deaths: Vec<Value> = Vec::new();
    while !kids.is_empty() {
        let mut i = 0;
        let mut any = false;
        while i < kids.len() {
            use std::os::unix::process::ExitStatusExt;
            match kids[i].1.try_wait() {
                Ok(None) => i += 1,
                Ok(Some(s)) => {
                    any = true;
                    let (w, _) = kids.remove(i);
                    let code = s.code().unwrap_or_else(|| -s.signal().unwrap_or(1));
                    if code == 3 {
                        die("a worker reports a harness error");
                    }
                    if code != 0 {
                        let at = sh.slot(w as usize).load(Ordering::SeqCst);
                        if at == 0 || code == 2 {
                            die(&format!("worker {w}: {} outside of a run", death(code)));
                        }
                        let index = at - 1;
                        sh.min().fetch_min(index, Ordering::SeqCst);
                        let rs = run_seed(seed, p.id, index);
                        deaths.push(json!({"property": p.id, "index": index, "run_seed": rs, "class": "abort", "code": code, "msg": death(code), "w": w, "n": n}));
                    }
                }
                Err(e) => die(&format!("wait: {e}")),
            }
        }
        if !any {
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    let wall = start.elapsed().as_secs_f64();
    // together
    let mut viols = deaths;
    let mut st = Stats::default();
    let mut nontrivial = 0;
    let mut capped = false;
    let mut samples: Vec<(u64, String)> = Vec::new();
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        if name.starts_with("viol_") {
            viols.push(read_json(e.path().to_str().unwrap()));
        } else if name.starts_with("hash_") {
            for c in std::fs::read(e.path()).unwrap().chunks_exact(8) {
                st.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        } else if name.starts_with("stats_") {
            let j = read_json(e.path().to_str().unwrap());
            let n = |k: &str| j[k].as_u64().unwrap_or(0);
            st.runs += n("runs");
            nontrivial += n("nontrivial");
            st.io_steps += n("io_steps");
            st.io_bytes += n("io_bytes");
            st.objects += n("objects");
            st.draws += n("draws");
            capped |= j["capped"].as_bool().unwrap_or(false);
            let merge = |to: &mut BTreeMap<String, u64>, k: &str| {
                if let Some(m) = j[k].as_object() {
                    for (a, b) in m {
                        *to.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                    }
                }
            };
            merge(&mut st.faults, "faults");
            merge(&mut st.probes, "probes");
            merge(&mut st.known, "known");
            for s in j["samples"].as_array().unwrap_or(&vec![]) {
                samples.push((s[0].as_u64().unwrap_or(0), s[1].as_str().unwrap_or("").to_string()));
            }
        }
    }
    viols.sort_by_key(|v| v["index"].as_u64().unwrap_or(u64::MAX));
    samples.sort();
    samples.truncate(6);
    for (id, count) in &st.known {
        if let Some(k) = known_findings().iter().find(|k| k.0 == *id) {
            println!("KNOWN-FINDING: property={} {} (seen in {count} runs)", p.id, k.2);
        }
    }
    let mut replay_path = None;
    if let Some(v) = viols.first() {
        let (path, confirmed) = report(&p, v, seed, &out, if thorough { 240 } else { 75 });
        // a run the machine stalled or a process it killed says nothing about the code
        let by_machine = v["class"] == "hang" || v["code"] == -9;
        if by_machine && !confirmed && again {
            println!("it ends in a fresh process: the machine stopped it, not the code; starting again");
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::remove_dir_all(&dir);
            return attempt(a, false);
        }
        replay_path = Some(path);
    }
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.hashes.len(),
            "rule": format!("One evaluation is one simulated run: {}; everything (data, delivery, faults, schedule) is drawn from the run's seed. A run is non-trivial if it handled at least one object and at least one fault or short operation was injected; two runs are distinct if their hashes over the data and the whole sequence of I/O operations, results and scheduling decisions differ.", p.rule),
            "samples": samples.iter().map(|(i, s)| json!({"run": i, "seed": run_seed(seed, p.id, *i), "what": s})).collect::<Vec<_>>(),
            "nontrivial_runs": nontrivial,
            "runs_and_seeds_per_hour": (st.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_time": {"unit": "simulated I/O operations (the library has no clock; the tool of C19 sees a virtual one)", "operations": st.io_steps, "bytes": st.io_bytes, "tape_draws": st.draws},
            "objects": st.objects,
            "faults_injected": st.faults,
            "probes": st.probes,
            "workers": n,
            "stopped_by_wall_clock": capped,
            "real_code": p.real,
            "stubbed": p.stub,
        },
        "assumptions": [
            "A sample of runs, not all of them: a clean batch is evidence, not proof.",
            "The reference model, the file encoders and the strict XML parser of the harness are right.",
        ],
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": if viols.is_empty() { 0 } else { 1 },
    });
    std::fs::write(out.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| die(&format!("evidence: {e}")));
    let _ = std::fs::remove_dir_all(&dir);
    match replay_path {
        Some(path) => {
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        None => {
            println!(
                "held: {} runs ({} distinct non-trivial), {} objects, {} I/O operations, {} faults of {} kinds, {:.1} s{}",
                st.runs,
                st.hashes.len(),
                st.objects,
                st.io_steps,
                st.faults.values().sum::<u64>(),
                st.faults.len(),
                wall,
                if capped { " (stopped by the wall clock)" } else { "" }
            );
            0
        }
    }
}

/// minimises, confirms in a fresh process and writes the replay file
fn report(p: &Prop, v: &Value, seed: u64, out: &Path, secs: u64) -> (PathBuf, bool) {
    let index = v["index"].as_u64().unwrap_or(0);
    let rs = v["run_seed"].as_u64().unwrap_or(0);
    let class = v["class"].as_str().unwrap_or("").to_string();
    println!("run {index} (seed {rs}) breaks the property [{class}]: {}", v["msg"].as_str().unwrap_or(""));
    let mut tape = tape_of(v);
    if tape.is_empty() {
        tape = spill_of(p, rs);
    }
    let hang = if class == "hang" { 15 } else { HANG_S };
    let mut before: Vec<u64> = Vec::new();
    let mut confirmed = one_of(p.id, &tape, &before, false, hang).is_some_and(|r| r.0 == class);
    if !confirmed {
        // does it need what earlier runs left behind in the process?
        let (w, n) = (v["w"].as_u64().unwrap_or(0), v["n"].as_u64().unwrap_or(1));
        let earlier: Vec<u64> = (0..index).filter(|i| i % n == w).map(|i| run_seed(seed, p.id, i)).collect();
        let mut k = 1;
        loop {
            let from = earlier.len().saturating_sub(k);
            if one_of(p.id, &tape, &earlier[from..], false, hang).is_some_and(|r| r.0 == class) {
                before = earlier[from..].to_vec();
                confirmed = true;
                println!("it needs the {} runs before it in the same process", before.len());
                break;
            }
            if from == 0 {
                break;
            }
            k *= 4;
        }
    }
    let original = tape.len();
    if confirmed {
        let inp = scratch(&format!("min_in_{}.json", std::process::id()));
        let outp = scratch(&format!("min_out_{}.json", std::process::id()));
        std::fs::write(&inp, json!({"property": p.id, "class": class, "tape": tape, "before": before}).to_string()).unwrap();
        let mut c = Command::new(exe())
            .args(["minimise", "--in", inp.to_str().unwrap(), "--out", outp.to_str().unwrap(), "--secs", &secs.to_string()])
            .spawn()
            .unwrap_or_else(|e| die(&format!("spawn: {e}")));
        wait(&mut c, Duration::from_secs(secs + 30));
        if let Ok(t) = std::fs::read_to_string(&outp) {
            if let Ok(j) = serde_json::from_str::<Value>(&t) {
                let small = tape_of(&j);
                if one_of(p.id, &small, &before, false, hang).is_some_and(|r| r.0 == class) {
                    tape = small;
                } else {
                    println!("the minimised run does not fail in a fresh process, the original one is kept");
                }
            }
        }
        let _ = std::fs::remove_file(&inp);
        let _ = std::fs::remove_file(&outp);
    }
    let last = one_of(p.id, &tape, &before, true, hang);
    let (msg, det) = match last {
        Some((c, m, d)) if c == class => (m, d),
        _ => (v["msg"].as_str().unwrap_or("").to_string(), json!({})),
    };
    println!("minimised from {original} to {} draws: {msg}", tape.len());
    let j = json!({
        "property": p.id,
        "seed": seed,
        "run": index,
        "run_seed": rs,
        "class": class,
        "msg": msg,
        "confirmed_in_fresh_process": confirmed,
        "summary": det["summary"],
        "event_hash": det["hash"],
        "before": before,
        "tape": tape,
        "trace": det["trace"],
        "trace_dropped": det["trace_dropped"],
    });
    let path = out.join(format!("{}.replay.json", p.id));
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap_or_else(|e| die(&format!("replay file: {e}")));
    (path, confirmed)
}

fn replay(a: &Args) -> i32 {
    let j = read_json(a.pos(1));
    let prop = j["property"].as_str().unwrap_or("").to_string();
    let before: Vec<u64> = j["before"].as_array().map(|v| v.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    match one_of(&prop, &tape_of(&j), &before, true, HANG_S) {
        None => {
            println!("the run no longer breaks property {prop}");
            0
        }
        Some((class, msg, d)) => {
            for l in d["trace"].as_array().unwrap_or(&vec![]) {
                println!("  {}", l.as_str().unwrap_or(""));
            }
            println!("{}", d["summary"].as_str().unwrap_or(""));
            println!("[{class}] {msg}");
            let same = class == j["class"].as_str().unwrap_or("") && d["hash"] == j["event_hash"] && msg == j["msg"].as_str().unwrap_or("");
            println!("exactly as recorded: {}", if same { "yes" } else { "no" });
            println!("VIOLATION property={prop} replay={}", a.pos(1));
            1
        }
    }
}

/// event hashes of runs, to compare processes: --from --to
fn digest(a: &Args) -> i32 {
    static SHOWN: AtomicI32 = AtomicI32::new(0);
    let p = find(a.pos(1));
    let seed = a.num("seed", 1);
    let step = a.num("step", 1).max(1);
    let mut i = a.num("from", 0);
    while i < a.num("to", 100) {
        let o = execute(&p, sys_seed(p.id), Tape::fresh(run_seed(seed, p.id, i)), false, Duration::from_secs(HANG_S));
        let v = o.violation.map(|v| v.class).unwrap_or_default();
        println!("{i} {:016x} {} {v}", o.hash, fnv(3, &o.tape.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
        SHOWN.fetch_add(1, Ordering::SeqCst);
        i += step;
    }
    0
}
