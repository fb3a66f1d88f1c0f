//! The changeset tool as a process under a simulated operating system: its system calls are answered by
//! the shim (see shim/shim.c), it dies or loses power where the tape says, then its database is opened.
use crate::ctx::{Ctx, Res, Violation, fail};
use crate::doc::{self, CDoc, MChangeset};
use crate::generate as mk;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::Duration;

const OPEN: u32 = 1;
const WRITE: u32 = 3;
const SYNC: u32 = 4;
const TRUNC: u32 = 5;
const UNLINK: u32 = 6;
const DIRSYNC: u32 = 7;
const RENAME: u32 = 11;
const REFUSED: u32 = 12;
const KINDS: [&str; 13] = ["", "open", "read", "write", "sync", "truncate", "unlink", "dirsync", "stdout", "stat", "input", "rename", "refused"];

/// one operation of the tool
pub(super) struct Op {
    pub(super) kind: u32,
    id: u32,
    pub(super) res: i32,
    off: u64,
    data: Vec<u8>,
}

impl Op {
    fn name(&self) -> String {
        String::from_utf8_lossy(&self.data).into_owned()
    }
}

fn read_log(path: &Path) -> Vec<Op> {
    let b = std::fs::read(path).unwrap_or_default();
    let mut v = Vec::new();
    let mut p = 0;
    while p + 24 <= b.len() {
        let u = |i: usize| u32::from_le_bytes(b[p + i..p + i + 4].try_into().unwrap());
        let (kind, id, res, len) = (u(0), u(4), u(8) as i32, u(12) as usize);
        let off = u64::from_le_bytes(b[p + 16..p + 24].try_into().unwrap());
        p += 24;
        if p + len > b.len() {
            break;
        }
        v.push(Op { kind, id, res, off, data: b[p..p + len].to_vec() });
        p += len;
    }
    v
}

/// A scratch directory which goes away with the run
pub(super) struct Scratch(PathBuf);

impl Scratch {
    pub(super) fn new() -> Scratch {
        let d = crate::driver::scratch(&format!("tool-{}", unsafe { libc::syscall(libc::SYS_gettid) }));
        let _ = std::fs::remove_dir_all(&d);
        for s in ["in", "db", "x"] {
            if let Err(e) = std::fs::create_dir_all(d.join(s)) {
                crate::driver::die(&format!("cannot make {}: {e}", d.display()));
            }
        }
        Scratch(d.canonicalize().unwrap_or(d))
    }
    pub(super) fn path(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
    pub(super) fn put(&self, s: &str, b: &[u8]) {
        if let Err(e) = std::fs::write(self.path(s), b) {
            crate::driver::die(&format!("cannot write {s}: {e}"));
        }
    }
    fn clear_db(&self) {
        let _ = std::fs::remove_dir_all(self.path("db"));
        let _ = std::fs::create_dir_all(self.path("db"));
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub(super) enum Exit {
    Success,
    Failure(i32),
    Killed,
    Hung,
}

pub(super) struct Run {
    pub(super) exit: Exit,
    pub(super) log: Vec<Op>,
    err: String,
}

fn beside(name: &str) -> PathBuf {
    let e = std::env::current_exe().unwrap_or_default();
    // a replaced binary is shown with " (deleted)" behind its name, its directory is still right
    e.parent().unwrap_or(Path::new(".")).join(name)
}

fn run_tool(ctx: &Ctx, sc: &Scratch, plan: &str) -> Run {
    run_bin(ctx, sc, plan, "changeset-tool", &["in/dump.osm.bz2", "db/out.sqlite"])
}

pub(super) fn run_bin(ctx: &Ctx, sc: &Scratch, plan: &str, bin: &str, args: &[&str]) -> Run {
    let mut c = spawn(sc, plan, bin, args, "", None);
    let exit = wait(&mut c);
    judge(ctx, sc, "", exit)
}

/// the files the process writes beside its data carry `tag`; `turn` is (its question, its answer), see the shim
fn spawn(sc: &Scratch, plan: &str, bin: &str, args: &[&str], tag: &str, turn: Option<(i32, i32)>) -> Child {
    let file = |n: &str| std::fs::File::create(sc.path(&format!("{n}{tag}"))).unwrap_or_else(|e| crate::driver::die(&format!("cannot make {n}: {e}")));
    let mut c = Command::new(beside(bin));
    c.args(args.iter().map(|a| sc.path(a)))
        .current_dir(sc.path("x"))
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("SQLITE_TMPDIR", sc.path("x"))
        .env("TMPDIR", sc.path("x"))
        .env("LD_PRELOAD", beside("libosmshim.so"))
        .env("OSMSIM_DIR", &sc.0)
        .env("OSMSIM_LOG", sc.path(&format!("log{tag}")))
        .env("OSMSIM_PLAN", plan)
        .stdin(Stdio::null())
        .stdout(file("out"))
        .stderr(file("err"));
    if let Some((ask, answer)) = turn {
        use std::os::unix::process::CommandExt;
        c.env("OSMSIM_TURN", "1");
        // SAFETY: dup2 is async-signal-safe
        unsafe {
            c.pre_exec(move || if libc::dup2(ask, 901) < 0 || libc::dup2(answer, 902) < 0 { Err(std::io::Error::last_os_error()) } else { Ok(()) });
        }
    }
    c.spawn().unwrap_or_else(|e| crate::driver::die(&format!("cannot start the tool: {e}")))
}

fn wait(c: &mut Child) -> Exit {
    let mut patience = crate::rt::Patience::start();
    let mut nap = 200;
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                use std::os::unix::process::ExitStatusExt;
                return match (s.code(), s.signal()) {
                    (Some(0), _) => Exit::Success,
                    (Some(n), _) => Exit::Failure(n),
                    (None, Some(libc::SIGKILL)) => Exit::Killed,
                    (None, n) => Exit::Failure(-n.unwrap_or(0)),
                };
            }
            Ok(None) => {}
            Err(e) => crate::driver::die(&format!("wait: {e}")),
        }
        if patience.spent() > Duration::from_secs(40) {
            let _ = c.kill();
            let _ = c.wait();
            return Exit::Hung;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(5000);
    }
}

fn judge(ctx: &Ctx, sc: &Scratch, tag: &str, exit: Exit) -> Run {
    let log = read_log(&sc.path(&format!("log{tag}")));
    let err = String::from_utf8_lossy(&std::fs::read(sc.path(&format!("err{tag}"))).unwrap_or_default()).lines().next().unwrap_or("").to_string();
    if log.is_empty() && !matches!(exit, Exit::Killed) {
        crate::driver::die(&format!("the tool did not run under the shim: {exit:?} {err}"));
    }
    for (i, o) in log.iter().enumerate() {
        ctx.event(o.kind as u64, o.off ^ ((o.res as u32 as u64) << 32), o.data.len() as u64);
        ctx.hash_bytes(&o.data);
        ctx.log(|| format!("op{tag} {i}: {} file {} at {} -> {} {}", KINDS[o.kind.min(12) as usize], o.id, o.off, o.res, if matches!(o.kind, OPEN | UNLINK | REFUSED) { o.name() } else { String::new() }));
        if o.res == -libc::EINTR {
            ctx.fault("interrupted");
        }
    }
    {
        let mut g = ctx.lock();
        g.io_steps += log.len() as u64;
        g.io_bytes += log.iter().map(|o| o.data.len() as u64).sum::<u64>();
    }
    ctx.event(99, matches!(exit, Exit::Success) as u64, 0);
    ctx.log(|| format!("tool{tag} ends: {exit:?} {err}"));
    Run { exit, log, err }
}

// ---- several processes, one of which goes on at a time

struct Turns {
    child: Child,
    ask: std::os::fd::OwnedFd,
    answer: std::os::fd::OwnedFd,
    /// what it wants to do next; None once it has ended
    wants: Option<u8>,
}

fn pipe() -> [std::os::fd::OwnedFd; 2] {
    use std::os::fd::FromRawFd;
    let mut p = [0; 2];
    // SAFETY: the two descriptors are new and owned by nobody else
    unsafe {
        if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            crate::driver::die("cannot make a pipe");
        }
        [std::os::fd::OwnedFd::from_raw_fd(p[0]), std::os::fd::OwnedFd::from_raw_fd(p[1])]
    }
}

impl Turns {
    fn start(sc: &Scratch, plan: &str, args: &[&str], tag: &str) -> Turns {
        use std::os::fd::AsRawFd;
        let ([ask, ask_w], [answer_r, answer]) = (pipe(), pipe());
        let child = spawn(sc, plan, "changeset-tool", args, tag, Some((ask_w.as_raw_fd(), answer_r.as_raw_fd())));
        drop((ask_w, answer_r));
        let mut t = Turns { child, ask, answer, wants: None };
        t.listen();
        t
    }
    /// waits for the next question or the end of the process
    fn listen(&mut self) {
        use std::os::fd::AsRawFd;
        let mut f = libc::pollfd { fd: self.ask.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let mut patience = crate::rt::Patience::start();
        self.wants = None;
        while patience.spent() < Duration::from_secs(40) {
            // SAFETY: one descriptor, one byte
            unsafe {
                if libc::poll(&mut f, 1, 1000) > 0 {
                    let mut c = 0u8;
                    match libc::read(f.fd, &mut c as *mut u8 as *mut libc::c_void, 1) {
                        1 => self.wants = Some(c),
                        0 => {}
                        _ => continue,
                    }
                    return;
                }
            }
        }
        let _ = self.child.kill();
    }
    fn go(&mut self) {
        use std::os::fd::AsRawFd;
        // SAFETY: one byte; the other end may be gone, SIGPIPE is ignored by the Rust runtime
        unsafe {
            libc::write(self.answer.as_raw_fd(), b"x".as_ptr() as *const libc::c_void, 1);
        }
        self.listen();
    }
}

/// Two runs of the tool into the same database at the same time, interleaved operation by operation: if one
/// succeeds, the database is exactly its dump; whatever happens, it is nothing or exactly one of the dumps.
fn race(ctx: &Ctx, sc: &Scratch, d: &CDoc, z: &[u8], plan: &str) -> Res {
    let db = sc.path("db/out.sqlite");
    sc.put("in/dump.osm.bz2", z);
    // the other one reads the same dump, another one, or garbage
    let other = doc::changesets(ctx, 10);
    let (want_b, zb) = match ctx.weighted(&[2, 4, 1]) {
        0 => (Some(&d.cs), z.to_vec()),
        1 => (Some(&other.cs), doc::bz2(ctx, &other.bytes).0),
        _ => (None, mk::big_text(ctx, 100).into_bytes()),
    };
    sc.put("in/other.osm.bz2", &zb);
    let mut plans = [plan.to_string(), base_plan(ctx, false)];
    let mut killed = [false; 2];
    if ctx.chance(1, 3) {
        let i = ctx.us(2);
        killed[i] = true;
        let op = if ctx.chance(1, 2) { ctx.us(20) } else { ctx.us(200) };
        let f = format!(" at={op},{},{}", 3 + ctx.us(3), ctx.draw(5000));
        ctx.summary(|| format!("process {i}: {f}"));
        plans[i].push_str(&f);
    }
    let mut t = [
        Turns::start(sc, &plans[0], &["in/dump.osm.bz2", "db/out.sqlite"], "0"),
        Turns::start(sc, &plans[1], &["in/other.osm.bz2", "db/out.sqlite"], "1"),
    ];
    // how long one goes on before the other
    let calm = *ctx.pick(&[1u64, 3, 10, 40, 150]);
    let mut now = ctx.us(2);
    let mut steps = 0u64;
    while t.iter().any(|p| p.wants.is_some()) {
        steps += 1;
        if steps > 2_000_000 {
            for p in &mut t {
                let _ = p.child.kill();
            }
            return fail("hang", "two runs at the same time do not end");
        }
        if t[now].wants.is_none() || (steps < 3000 && t[1 - now].wants.is_some() && ctx.chance(1, calm + 1)) {
            now = 1 - now;
            ctx.fault("process_switch");
        } else if t[now].wants == Some(21) && t[1 - now].wants.is_some() {
            // it sleeps because of the other one
            ctx.probe("waited_for_the_other");
            now = 1 - now;
        }
        if t[now].wants == Some(20) {
            ctx.probe("lock_step");
        }
        ctx.event(98, now as u64, t[now].wants.unwrap_or(0) as u64);
        ctx.log(|| format!("process {now} goes on"));
        t[now].go();
    }
    let [mut a, mut b] = t;
    let (ea, eb) = (wait(&mut a.child), wait(&mut b.child));
    let (ra, rb) = (judge(ctx, sc, "0", ea), judge(ctx, sc, "1", eb));
    refused(&ra.log)?;
    refused(&rb.log)?;
    for (i, (r, want)) in [(&ra, Some(&d.cs)), (&rb, want_b)].into_iter().enumerate() {
        match r.exit {
            Exit::Hung => return fail("hang", format!("process {i} does not end")),
            Exit::Killed if !killed[i] => return fail("killed", format!("process {i} was killed")),
            Exit::Killed => ctx.fault("killed_in_race"),
            Exit::Failure(_) => ctx.probe("loser"),
            Exit::Success => {
                ctx.probe("winner");
                match want {
                    None => return fail("silent", "success with garbage for a dump"),
                    Some(w) => must_be_all(&db, w, &format!("success of process {i} of two at the same time"))?,
                }
            }
        }
    }
    if ra.exit == Exit::Success || rb.exit == Exit::Success {
        return Ok(());
    }
    ctx.probe("no_winner");
    let one = must_be_atomic(ctx, &db, &d.cs, "two runs at the same time, both without success");
    match (one, want_b) {
        (Err(e), Some(w)) if e.class == "partial" => must_be_atomic(ctx, &db, w, "two runs at the same time, both without success"),
        (r, _) => r,
    }
}

/// rows of the database, or None if there is no table (or no file) at all
fn rows(db: &Path) -> Result<Option<Vec<(i64, Value)>>, String> {
    if !db.exists() {
        return Ok(None);
    }
    let run = || -> rusqlite::Result<Result<Option<Vec<(i64, Value)>>, String>> {
        let c = rusqlite::Connection::open_with_flags(db, rusqlite::OpenFlags::SQLITE_OPEN_READ_WRITE)?;
        let ok: String = c.query_row("PRAGMA integrity_check", [], |r| r.get(0))?;
        if ok != "ok" {
            return Ok(Err(format!("integrity check: {ok}")));
        }
        let n: i64 = c.query_row("SELECT count(*) FROM sqlite_master WHERE type='table' AND name='changeset_tags'", [], |r| r.get(0))?;
        if n == 0 {
            return Ok(Ok(None));
        }
        let mut st = c.prepare("SELECT id, other_tags FROM changeset_tags ORDER BY id")?;
        let mut q = st.query([])?;
        let mut v = Vec::new();
        while let Some(r) = q.next()? {
            let id: i64 = r.get(0)?;
            let json = match r.get_ref(1)? {
                rusqlite::types::ValueRef::Text(t) | rusqlite::types::ValueRef::Blob(t) => t,
                o => return Ok(Err(format!("changeset {id}: tags of type {}", o.data_type()))),
            };
            match serde_json::from_slice(json) {
                Ok(j) => v.push((id, j)),
                Err(e) => return Ok(Err(format!("changeset {id}: the tags are no JSON: {e}"))),
            }
        }
        Ok(Ok(Some(v)))
    };
    match run() {
        Ok(r) => r,
        Err(e) => Err(format!("the database cannot be read: {e}")),
    }
}

/// the tags as JSON: pairs or an object
fn same_tags(j: &Value, want: &[(String, String)]) -> bool {
    match j {
        Value::Array(a) => {
            let got: Option<Vec<(String, String)>> = a
                .iter()
                .map(|p| match p.as_array().map(|p| p.as_slice()) {
                    Some([Value::String(k), Value::String(v)]) => Some((k.clone(), v.clone())),
                    _ => None,
                })
                .collect();
            got.is_some_and(|mut g| {
                let mut w = want.to_vec();
                g.sort();
                w.sort();
                g == w
            })
        }
        Value::Object(o) => {
            let got: BTreeMap<&str, Option<&str>> = o.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            let want: BTreeMap<&str, Option<&str>> = want.iter().map(|(k, v)| (k.as_str(), Some(v.as_str()))).collect();
            got == want
        }
        _ => false,
    }
}

/// Err: what is wrong; changesets without any child element need not have a row
fn all_rows(got: &[(i64, Value)], want: &[MChangeset]) -> Result<(), String> {
    let mut g = got.iter().peekable();
    let mut sorted: Vec<&MChangeset> = want.iter().collect();
    sorted.sort_by_key(|c| c.id);
    for w in sorted {
        match g.peek() {
            Some((id, j)) if *id == w.id as i64 => {
                if !same_tags(j, &w.tags) {
                    return Err(format!("changeset {id}: tags should be {:?} but are {j}", w.tags));
                }
                g.next();
            }
            _ if !w.content => {}
            _ => return Err(format!("changeset {} has no row ({} rows for {} changesets)", w.id, got.len(), want.len())),
        }
    }
    match g.next() {
        Some((id, _)) => Err(format!("there is a row for changeset {id}, which is not in the dump")),
        None => Ok(()),
    }
}

fn must_be_all(db: &Path, want: &[MChangeset], when: &str) -> Res {
    match rows(db) {
        Err(e) => fail("corrupt", format!("{when}: {e}")),
        Ok(None) => fail("lost rows", format!("{when}: there is no table")),
        Ok(Some(r)) => all_rows(&r, want).or_else(|e| fail("wrong rows", format!("{when}: {e}"))),
    }
}

/// nothing or everything
fn must_be_atomic(ctx: &Ctx, db: &Path, want: &[MChangeset], when: &str) -> Res {
    match rows(db) {
        Err(e) => fail("corrupt", format!("{when}: {e}")),
        Ok(None) => {
            ctx.probe("nothing_left");
            Ok(())
        }
        Ok(Some(r)) if r.is_empty() => {
            ctx.probe("empty_table_left");
            Ok(())
        }
        Ok(Some(r)) => {
            ctx.probe("everything_left");
            all_rows(&r, want).or_else(|e| fail("partial", format!("{when}: {e}")))
        }
    }
}

// ---- loss of power

#[derive(Clone, Default)]
struct File {
    durable: Vec<u8>,
    /// (offset, bytes) or a truncation
    pending: Vec<(u64, Option<Vec<u8>>)>,
}

fn apply(b: &mut Vec<u8>, off: u64, w: &Option<Vec<u8>>) {
    match w {
        None => b.resize(off as usize, 0),
        Some(w) => {
            let end = off as usize + w.len();
            if b.len() < end {
                b.resize(end, 0);
            }
            b[off as usize..end].copy_from_slice(w);
        }
    }
}

/// What a disk holds when the power fails: everything synced, and of the rest what the tape says, sector by
/// sector; directory entries likewise, or all of them (`ordered`: the machine fails seconds later).
fn power_loss(ctx: &Ctx, ops: &[Op], torn: Option<usize>, ordered: bool) -> HashMap<String, Vec<u8>> {
    let mut files: HashMap<u32, File> = HashMap::new();
    let mut dir: BTreeMap<String, u32> = BTreeMap::new();
    let mut pending: Vec<(String, Option<u32>)> = Vec::new();
    let now = |dir: &BTreeMap<String, u32>, pending: &[(String, Option<u32>)], name: &str| match pending.iter().rev().find(|p| p.0 == name) {
        Some(p) => p.1,
        None => dir.get(name).copied(),
    };
    for o in ops {
        match o.kind {
            OPEN if o.res >= 0 && o.id > 0 => {
                if o.res == 1 {
                    pending.push((o.name(), Some(o.id)));
                } else if o.off == 1 {
                    files.entry(o.id).or_default().pending.push((0, None));
                }
            }
            WRITE if o.res > 0 => files.entry(o.id).or_default().pending.push((o.off, Some(o.data.clone()))),
            TRUNC if o.res >= 0 => files.entry(o.id).or_default().pending.push((o.off, None)),
            SYNC if o.res >= 0 => {
                let f = files.entry(o.id).or_default();
                for (off, w) in std::mem::take(&mut f.pending) {
                    apply(&mut f.durable, off, &w);
                }
            }
            UNLINK if o.res >= 0 => pending.push((o.name(), None)),
            RENAME if o.res >= 0 => {
                let n = o.name();
                if let Some((a, b)) = n.split_once('\0') {
                    let id = now(&dir, &pending, a);
                    pending.push((a.to_string(), None));
                    pending.push((b.to_string(), id));
                }
            }
            DIRSYNC if o.res >= 0 => {
                for (n, id) in pending.drain(..) {
                    match id {
                        Some(i) => dir.insert(n, i),
                        None => dir.remove(&n),
                    };
                }
            }
            _ => {}
        }
    }
    // directory operations reach the disk in order, up to some point
    let kept = if ordered { pending.len() } else { ctx.us(pending.len() + 1) };
    for (n, id) in pending.drain(..).take(kept) {
        match id {
            Some(i) => dir.insert(n, i),
            None => dir.remove(&n),
        };
    }
    // unsynced data: none, all, a prefix, or any sectors
    let mode = if ordered { 0 } else { ctx.weighted(&[3, 2, 2, 4]) };
    let mut rng = ctx.subrng();
    let mut lost = 0u64;
    let mut out = HashMap::new();
    for (name, id) in dir {
        let mut f = files.remove(&id).unwrap_or_default();
        let n = f.pending.len();
        let upto = match mode {
            0 => 0,
            1 => n,
            _ => rng.below(n as u64 + 1) as usize,
        };
        let torn = torn.unwrap_or(512);
        for (i, (off, w)) in std::mem::take(&mut f.pending).into_iter().enumerate() {
            match (mode, &w) {
                (0..=2, _) if i >= upto => lost += 1,
                (0..=2, _) => apply(&mut f.durable, off, &w),
                (_, None) => {
                    if rng.below(2) == 0 {
                        apply(&mut f.durable, off, &w)
                    } else {
                        lost += 1;
                    }
                }
                (_, Some(b)) => {
                    let mut at = 0;
                    while at < b.len() {
                        let to = ((((off as usize + at) / torn) + 1) * torn - off as usize).min(b.len());
                        if rng.below(2) == 0 {
                            apply(&mut f.durable, off + at as u64, &Some(b[at..to].to_vec()));
                        } else {
                            lost += 1;
                        }
                        at = to;
                    }
                }
            }
        }
        out.insert(name, f.durable);
    }
    if lost > 0 {
        ctx.fault("unsynced_writes_lost");
    }
    ctx.fault("power_loss");
    out
}

fn after_power_loss(ctx: &Ctx, sc: &Scratch, ops: &[Op], want: &[MChangeset]) -> Res {
    // more often where something happens
    let writes: Vec<usize> = ops.iter().enumerate().filter(|o| matches!(o.1.kind, WRITE | SYNC | UNLINK | DIRSYNC | TRUNC)).map(|o| o.0).collect();
    if writes.is_empty() {
        return Ok(());
    }
    for _ in 0..ctx.range(1, 6) {
        let w = writes[match ctx.us(3) {
            0 => ctx.us(writes.len()),
            1 => writes.len() - 1 - ctx.us(writes.len().min(20)),
            _ => ctx.us(writes.len().min(40)),
        }];
        let at = w + ctx.us(2);
        let torn = *ctx.pick(&[512usize, 4096]);
        let left = power_loss(ctx, &ops[..at], Some(torn), false);
        restore(sc, &left);
        must_be_atomic(ctx, &sc.path("x/db/out.sqlite"), want, &format!("power lost before operation {at} of {}", ops.len()))?;
    }
    Ok(())
}

/// puts files (names like db/out.sqlite) below x/
fn restore(sc: &Scratch, left: &HashMap<String, Vec<u8>>) {
    let _ = std::fs::remove_dir_all(sc.path("x/db"));
    let _ = std::fs::create_dir_all(sc.path("x/db"));
    for (n, b) in left {
        if n.starts_with("db/") {
            // files refer to nothing by absolute name
            sc.put(&format!("x/{n}"), b);
        }
    }
}

// ---- inputs

/// many small changesets, so that the database does not fit into SQLite's cache
fn big_dump(ctx: &Ctx) -> CDoc {
    let n = match ctx.weighted(&[4, 4, 1]) {
        0 => 300 + ctx.draw(3000),
        1 => 3000 + ctx.draw(25_000),
        _ => 30_000 + ctx.draw(90_000),
    };
    let step = 1 + ctx.draw(5);
    let len = if n < 5000 { ctx.us(1500) } else { ctx.us(30) };
    let mut d = CDoc::default();
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm>\n");
    d.root_open = 39 + 6;
    let pad = "x".repeat(len);
    for i in 0..n {
        let id = (1 + i * step) as u32;
        let a = s.len();
        s.push_str(&format!(
            " <changeset id=\"{id}\" created_at=\"2020-01-01T00:00:00Z\" open=\"false\" num_changes=\"1\" comments_count=\"0\">\n  <tag k=\"comment\" v=\"{id}{pad}\"/>\n </changeset>"
        ));
        d.spans.push((a + 1, s.len()));
        s.push('\n');
        d.cs.push(MChangeset {
            id,
            created: String::new(),
            closed: None,
            open: false,
            uid: None,
            user: None,
            num_changes: 1,
            comments: 0,
            tags: vec![("comment".into(), format!("{id}{pad}"))],
            empty: false,
            content: true,
        });
    }
    s.push_str("</osm>");
    d.root_end = s.len();
    s.push('\n');
    d.bytes = s.into_bytes();
    ctx.hash_bytes(&d.bytes);
    ctx.objects(d.cs.len());
    ctx.probe("big_dump");
    ctx.summary(|| format!("big dump of {n} changesets, {} bytes", d.bytes.len()));
    d
}

fn quick_bz2(data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::fast());
    let _ = e.write_all(data);
    e.finish().unwrap_or_default()
}

pub(super) const ERRNOS: [(i32, &str); 7] = [
    (libc::EIO, "EIO"),
    (libc::ENOSPC, "ENOSPC"),
    (libc::EACCES, "EACCES"),
    (libc::EDQUOT, "EDQUOT"),
    (libc::EROFS, "EROFS"),
    (libc::ENOMEM, "ENOMEM"),
    (libc::EMFILE, "EMFILE"),
];

/// everything but the fault: speed and slicing of the input, interruptions, clock
pub(super) fn base_plan(ctx: &Ctx, big: bool) -> String {
    let chunk = if big { *ctx.pick(&[0u64, 3]) } else { ctx.draw(4) };
    let intr = *ctx.pick(&[0u64, 0, 3, 20]);
    let short = *ctx.pick(&[0u64, 0, 2, 10]);
    let clock = *ctx.pick(&[1_000u64, 1_000_000_000, 0, 3_600_000_000_000]);
    if chunk > 0 {
        ctx.fault("short_input_reads");
    }
    if short > 0 {
        ctx.fault("short_database_io");
    }
    if clock > 1_000_000 {
        ctx.fault("clock_jumps");
    }
    format!("seed={} chunk={chunk} intr={intr} short={short} clock={clock}", ctx.draw(1 << 20))
}

pub(super) fn loud(exit: Exit) -> Result<(), Violation> {
    match exit {
        Exit::Failure(_) => Ok(()),
        Exit::Success => fail("silent", "the tool reports success"),
        Exit::Killed => fail("killed", "the tool was killed"),
        Exit::Hung => fail("hang", "the tool does not end"),
    }
}

pub(super) fn refused(log: &[Op]) -> Res {
    match log.iter().find(|o| o.kind == REFUSED) {
        Some(o) => fail("outside", format!("the tool wants to write or remove {}", o.name())),
        None => Ok(()),
    }
}

pub fn c19(ctx: &Ctx) -> Res {
    let sc = Scratch::new();
    let db = sc.path("db/out.sqlite");
    let kind = ctx.weighted(&[20, 8, 4, 6]);
    let big = kind < 2 && ctx.chance(1, 40);
    let d = if big { big_dump(ctx) } else { doc::changesets(ctx, 40) };
    let z = if big { quick_bz2(&d.bytes) } else { doc::bz2(ctx, &d.bytes).0 };
    let plan = base_plan(ctx, big);
    match kind {
        0 => {
            // the whole way once, then again with a fault; the power may fail at any point of the first
            sc.put("in/dump.osm.bz2", &z);
            let r = run_tool(ctx, &sc, &plan);
            refused(&r.log)?;
            match r.exit {
                Exit::Success => {}
                Exit::Hung => return fail("hang", "the tool does not end"),
                e => return fail("failure", format!("the tool fails ({e:?}) without any fault: {}", r.err)),
            }
            let want_file = std::fs::read(&db).unwrap_or_default();
            must_be_all(&db, &d.cs, "after success")?;
            if std::fs::read(&db).unwrap_or_default() != want_file {
                return fail("unfinished", "the database had to be repaired after a success");
            }
            if ctx.chance(1, 2) {
                let left = power_loss(ctx, &r.log, None, true);
                restore(&sc, &left);
                must_be_all(&sc.path("x/db/out.sqlite"), &d.cs, "after success and a later loss of power")?;
            }
            after_power_loss(ctx, &sc, &r.log, &d.cs)?;
            let n = r.log.len();
            for _ in 0..if big { 1 } else { ctx.range(1, 3) } {
                sc.clear_db();
                let fault = fault(ctx, &r.log, n);
                ctx.summary(|| fault.clone());
                let g = run_tool(ctx, &sc, &format!("{plan} {fault}"));
                refused(&g.log)?;
                let want_killed = fault.contains(",3,") || fault.contains(",4,") || fault.contains(",5,");
                match g.exit {
                    Exit::Hung => return fail("hang", format!("with {fault} the tool does not end")),
                    Exit::Killed if want_killed => {
                        ctx.fault("killed");
                        // the machine may lose power, too
                        if ctx.chance(1, 3) {
                            let left = power_loss(ctx, &g.log, Some(512), false);
                            restore(&sc, &left);
                            must_be_atomic(ctx, &sc.path("x/db/out.sqlite"), &d.cs, &format!("{fault}, then loss of power"))?;
                        }
                        if ctx.chance(1, 3) {
                            again(ctx, &sc, &d, &plan, &fault)?;
                        } else {
                            must_be_atomic(ctx, &db, &d.cs, &fault)?;
                        }
                    }
                    Exit::Killed => return fail("killed", format!("with {fault} the tool was killed")),
                    Exit::Success => {
                        ctx.probe("success_in_spite_of_fault");
                        must_be_all(&db, &d.cs, &format!("success in spite of {fault}"))?;
                    }
                    Exit::Failure(_) => {
                        ctx.probe("failed_by_fault");
                        must_be_atomic(ctx, &db, &d.cs, &format!("failure by {fault}"))?;
                    }
                }
            }
            Ok(())
        }
        1 => bad_input(ctx, &sc, &d, z, &plan),
        3 => race(ctx, &sc, &d, &z, &plan),
        _ => existing(ctx, &sc, &z, &plan),
    }
}

/// The tool is started again after it was killed: it does not touch what is there. Without the database, whatever
/// else was left behind, it does its work.
fn again(ctx: &Ctx, sc: &Scratch, d: &CDoc, plan: &str, fault: &str) -> Res {
    let db = sc.path("db/out.sqlite");
    if db.exists() && ctx.chance(1, 2) {
        let before = std::fs::read(&db).unwrap_or_default();
        let r = run_tool(ctx, sc, plan);
        refused(&r.log)?;
        loud(r.exit)?;
        ctx.probe("started_again_on_leftovers");
        if std::fs::read(&db).unwrap_or_default() != before {
            return fail("overwritten", format!("{fault}; the second run changed the database of the first"));
        }
        return must_be_atomic(ctx, &db, &d.cs, &format!("{fault}, and a second run"));
    }
    let _ = std::fs::remove_file(&db);
    let r = run_tool(ctx, sc, plan);
    refused(&r.log)?;
    ctx.probe("started_again_afresh");
    match r.exit {
        Exit::Success => must_be_all(&db, &d.cs, &format!("{fault}, then the database was removed and the tool run again")),
        Exit::Hung => fail("hang", "the tool does not end"),
        e => fail("failure", format!("{fault}; when the database is removed, the tool fails again ({e:?}): {}", r.err)),
    }
}

fn fault(ctx: &Ctx, log: &[Op], n: usize) -> String {
    match ctx.weighted(&[5, 4, 1]) {
        0 => {
            // death
            let action = 3 + ctx.us(3);
            let op = pick_op(ctx, log, n);
            format!("at={op},{action},{}", ctx.draw(5000))
        }
        1 => {
            let action = 1 + ctx.us(2);
            let op = pick_op(ctx, log, n);
            let (e, name) = *ctx.pick(&ERRNOS);
            ctx.fault(&format!("{}_{name}{}", KINDS[log[op].kind.min(12) as usize], if action == 2 { "_for_ever" } else { "" }));
            format!("at={op},{action},{e}")
        }
        _ => {
            ctx.fault("disk_full");
            let total: u64 = log.iter().filter(|o| o.kind == WRITE && o.res > 0).map(|o| o.data.len() as u64).sum();
            format!("full={}", ctx.draw(total + 1))
        }
    }
}

fn pick_op(ctx: &Ctx, log: &[Op], n: usize) -> usize {
    if ctx.chance(1, 6) {
        return ctx.us(n);
    }
    // a kind first: there are far more reads than anything else
    let mut kinds: Vec<u32> = log.iter().map(|o| o.kind).collect();
    kinds.sort();
    kinds.dedup();
    let k = *ctx.pick(&kinds);
    let of: Vec<usize> = (0..n).filter(|i| log[*i].kind == k).collect();
    of[ctx.us(of.len())]
}

/// damage, cuts, errors of the source, contents which make no sense
fn bad_input(ctx: &Ctx, sc: &Scratch, d: &CDoc, z: Vec<u8>, plan: &str) -> Res {
    let db = sc.path("db/out.sqlite");
    let mut plan = plan.to_string();
    let mut want = d.cs.clone();
    // Some(true): success is impossible; Some(false): success means all
    let mut must_fail = true;
    let file = match ctx.us(5) {
        0 => {
            let bad = super::pbf::damage(ctx, &z);
            let (have, res) = doc::most_of_bz2(&bad);
            match res {
                Ok(()) if have == d.bytes => must_fail = false,
                Ok(()) => {
                    ctx.probe("undetectable_damage");
                    return Ok(());
                }
                Err(_) => must_fail = !(d.bytes.starts_with(&have) && have.len() >= d.root_end),
            }
            bad
        }
        1 => {
            let at = ctx.us(z.len());
            ctx.fault("source_cut");
            ctx.summary(|| format!("bz2 cut at {at} of {}", z.len()));
            let (have, res) = doc::most_of_bz2(&z[..at]);
            if have.len() >= d.root_end {
                must_fail = false;
            } else if res.is_ok() && !d.spans.iter().any(|s| s.0 < have.len() && have.len() < s.1) {
                // ends between two changesets, without any sign of it
                ctx.probe("cut_between_changesets");
                must_fail = false;
                want = d.cs[..d.spans.iter().filter(|s| s.1 <= have.len()).count()].to_vec();
            }
            z[..at].to_vec()
        }
        2 => {
            let at = ctx.us(z.len());
            ctx.fault("source_error");
            let (have, _) = doc::most_of_bz2(&z[..at]);
            must_fail = have.len() < d.root_end;
            plan.push_str(&format!(" inerr={at},{}", libc::EIO));
            z
        }
        3 => {
            // a document which is cut inside a changeset, properly compressed
            let Some(s) = d.spans.get(ctx.us(d.spans.len())) else { return Ok(()) };
            let at = s.0 + 1 + ctx.us(s.1 - s.0 - 1);
            ctx.fault("document_cut");
            ctx.summary(|| format!("document cut at {at} of {}", d.bytes.len()));
            doc::bz2(ctx, &d.bytes[..at]).0
        }
        _ => {
            // an entry which is not usable
            if ctx.chance(1, 2) {
                let Some(s) = d.spans.get(ctx.us(d.spans.len())) else { return Ok(()) };
                let text = super::changeset::unusable(ctx, true);
                ctx.fault("unusable_entry");
                ctx.summary(|| format!("the changeset at {} is {text}", s.0));
                let mut bytes = d.bytes.clone();
                bytes.splice(s.0..s.1, text.into_bytes());
                let file = doc::bz2(ctx, &bytes).0;
                return refuse(ctx, sc, &file, &plan);
            }
            // no usable id
            let with: Vec<usize> = (0..d.cs.len()).filter(|i| !d.cs[*i].empty && !d.cs[*i].tags.is_empty()).collect();
            if with.is_empty() {
                return Ok(());
            }
            let i = with[ctx.us(with.len())];
            let (a, b) = d.spans[i];
            let t = String::from_utf8_lossy(&d.bytes[a..b]).into_owned();
            let id = d.cs[i].id;
            let Some(p) = [format!(" id=\"{id}\""), format!(" id='{id}'"), format!("\nid=\"{id}\""), format!("\tid=\"{id}\"")].iter().find_map(|x| t.find(x.as_str()).map(|p| (p, x.len()))) else {
                return Ok(());
            };
            let quote = &t[p.0 + p.1 - 1..p.0 + p.1];
            let new = match ctx.us(3) {
                0 => format!(" id={quote}{quote}"),
                1 => format!(" id={quote}x{quote}"),
                _ => " ".to_string(),
            };
            ctx.fault("unusable_id");
            ctx.summary(|| format!("changeset {i} has {new:?}"));
            let mut bytes = d.bytes.clone();
            bytes.splice(a + p.0..a + p.0 + p.1, new.into_bytes());
            doc::bz2(ctx, &bytes).0
        }
    };
    sc.put("in/dump.osm.bz2", &file);
    let r = run_tool(ctx, sc, &plan);
    refused(&r.log)?;
    if must_fail {
        return judge_refusal(ctx, sc, r, want.len());
    }
    match r.exit {
        Exit::Success => must_be_all(&db, &want, "success with a benign input"),
        Exit::Failure(_) => must_be_atomic(ctx, &db, &want, "failure with a benign input"),
        e => loud(e),
    }
}

fn refuse(ctx: &Ctx, sc: &Scratch, file: &[u8], plan: &str) -> Res {
    sc.put("in/dump.osm.bz2", file);
    let r = run_tool(ctx, sc, plan);
    refused(&r.log)?;
    judge_refusal(ctx, sc, r, 0)
}

fn judge_refusal(ctx: &Ctx, sc: &Scratch, r: Run, n: usize) -> Res {
    loud(r.exit)?;
    ctx.probe("bad_input_refused");
    after_power_loss(ctx, sc, &r.log, &[])?;
    match rows(&sc.path("db/out.sqlite")) {
        Err(e) => fail("corrupt", format!("after a bad input: {e}")),
        Ok(Some(r)) if !r.is_empty() => fail("partial", format!("after a bad input there are {} rows of {n} changesets", r.len())),
        _ => Ok(()),
    }
}

/// a database which is there already is not touched
fn existing(ctx: &Ctx, sc: &Scratch, z: &[u8], plan: &str) -> Res {
    let db = sc.path("db/out.sqlite");
    match ctx.us(4) {
        0 => sc.put("db/out.sqlite", b""),
        1 => {
            let n = 1 + ctx.us(3000);
            let mut rng = ctx.subrng();
            let b: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
            sc.put("db/out.sqlite", &b);
        }
        k => {
            let sql = if k == 2 {
                "CREATE TABLE other (a); INSERT INTO other VALUES (1);"
            } else {
                "CREATE TABLE changeset_tags (id INTEGER PRIMARY KEY, other_tags TEXT NOT NULL); INSERT INTO changeset_tags VALUES (1, '[]');"
            };
            let r = rusqlite::Connection::open(&db).and_then(|c| c.execute_batch(sql));
            if let Err(e) = r {
                crate::driver::die(&format!("cannot make a database: {e}"));
            }
        }
    }
    ctx.probe("existing_database");
    let before = std::fs::read(&db).unwrap_or_default();
    let mut file = z.to_vec();
    if ctx.chance(1, 4) {
        file = mk::big_text(ctx, 100).into_bytes();
    }
    sc.put("in/dump.osm.bz2", &file);
    let mut plan = plan.to_string();
    if ctx.chance(1, 2) {
        // its first operations are few
        let (e, name) = *ctx.pick(&ERRNOS);
        let action = 1 + ctx.us(5);
        let op = ctx.us(8);
        ctx.fault(&format!("existing_{}", if action < 3 { name } else { "killed" }));
        let f = format!(" at={op},{action},{e}");
        ctx.summary(|| f.clone());
        plan.push_str(&f);
    }
    let r = run_tool(ctx, sc, &plan);
    refused(&r.log)?;
    match r.exit {
        Exit::Success => return fail("silent", "the tool reports success although the database exists"),
        Exit::Hung => return fail("hang", "the tool does not end"),
        _ => {}
    }
    if std::fs::read(&db).unwrap_or_default() != before {
        return fail("overwritten", "an existing database was changed");
    }
    Ok(())
}
