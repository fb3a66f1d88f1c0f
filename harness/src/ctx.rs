//! What one simulated run carries around: the tape, the event trace and the counters.
use crate::tape::{Rng, Tape, fnv, mix};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};

pub struct Inner {
    pub tape: Tape,
    pub trace: Vec<String>,
    pub trace_dropped: u64,
    pub tracing: bool,
    pub hash: u64,
    pub io_steps: u64,
    pub io_bytes: u64,
    pub short_ops: u64,
    pub objects: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub known: Vec<&'static str>,
    pub summary: String,
    /// rarely, very big and very many objects
    pub huge: bool,
}

#[derive(Clone)]
pub struct Ctx(pub Arc<Mutex<Inner>>);

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    let mut msg: String = msg.into();
    if msg.len() > 3000 {
        let mut i = 3000;
        while !msg.is_char_boundary(i) {
            i -= 1;
        }
        msg.truncate(i);
        msg.push_str("...");
    }
    Err(Violation { class: class.to_string(), msg })
}

impl Ctx {
    pub fn new(tape: Tape, tracing: bool) -> Ctx {
        Ctx(Arc::new(Mutex::new(Inner {
            tape,
            trace: Vec::new(),
            trace_dropped: 0,
            tracing,
            hash: 1,
            io_steps: 0,
            io_bytes: 0,
            short_ops: 0,
            objects: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            known: Vec::new(),
            summary: String::new(),
            huge: true,
        })))
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    /// for checks which take much time per byte
    pub fn no_huge(&self) {
        self.lock().huge = false;
    }
    pub fn huge(&self, one_in: u64) -> bool {
        let on = self.lock().huge;
        on && self.chance(1, one_in)
    }
    /// uniform in 0..n
    pub fn draw(&self, n: u64) -> u64 {
        self.lock().tape.draw(n)
    }
    pub fn us(&self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// uniform in lo..=hi, lo is simplest
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// index chosen by weight; 0 is simplest
    pub fn weighted(&self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn subrng(&self) -> Rng {
        let s = self.draw(1 << 32);
        Rng(mix(s))
    }
    pub fn event(&self, kind: u64, a: u64, b: u64) {
        let mut g = self.lock();
        g.hash = mix(g.hash ^ mix(kind ^ mix(a ^ mix(b))));
    }
    pub fn hash_bytes(&self, b: &[u8]) {
        let mut g = self.lock();
        g.hash = fnv(g.hash, b);
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        let mut g = self.lock();
        if g.tracing {
            if g.trace.len() < 600 {
                let s = f();
                g.trace.push(s);
            } else {
                g.trace_dropped += 1;
            }
        }
    }
    pub fn fault(&self, name: &str) {
        let mut g = self.lock();
        *g.faults.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn probe(&self, name: &str) {
        let mut g = self.lock();
        *g.probes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn probe_if(&self, c: bool, name: &str) {
        if c {
            self.probe(name)
        }
    }
    /// a deviation which the known-findings file lists under this id; false if it does not
    pub fn known(&self, id: &'static str) -> bool {
        if !crate::driver::listed(id) {
            return false;
        }
        let mut g = self.lock();
        if !g.known.contains(&id) {
            g.known.push(id);
        }
        true
    }
    pub fn objects(&self, n: usize) {
        self.lock().objects += n as u64;
    }
    pub fn summary(&self, f: impl FnOnce() -> String) {
        let mut g = self.lock();
        if g.summary.len() < 1500 {
            let s = f();
            if !g.summary.is_empty() {
                g.summary.push_str("; ");
            }
            g.summary.push_str(&s);
        }
    }
}
