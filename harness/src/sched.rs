//! Real threads, of which exactly one runs at a time: at every I/O operation and hand-over the running
//! task gives the token back and the tape decides who goes on.
use crate::ctx::Ctx;
use std::sync::{Arc, Condvar, Mutex};

struct State {
    current: usize,
    alive: Vec<bool>,
    started: usize,
    switches: u64,
    points: u64,
    stay: u64,
}

pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
    ctx: Ctx,
    n: usize,
}

/// the id of a task which stands for whichever thread it runs on
const HERE: usize = usize::MAX - 1;

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

#[derive(Clone)]
pub struct Task {
    s: Arc<Sched>,
    id: usize,
}

impl Sched {
    pub fn new(ctx: &Ctx, n: usize) -> Arc<Sched> {
        // how eager this run is to switch: 1 in `stay` points
        let stay = *ctx.pick(&[40u64, 8, 3, 2, 1]);
        Arc::new(Sched {
            st: Mutex::new(State { current: usize::MAX, alive: vec![true; n], started: 0, switches: 0, points: 0, stay }),
            cv: Condvar::new(),
            ctx: ctx.clone(),
            n,
        })
    }
    pub fn task(self: &Arc<Self>, id: usize) -> Task {
        Task { s: self.clone(), id }
    }
    /// call once all threads are spawned
    pub fn start(&self) {
        let mut st = self.st.lock().unwrap();
        while st.started < self.n {
            st = self.cv.wait(st).unwrap();
        }
        st.current = self.ctx.us(self.n);
        self.cv.notify_all();
    }
    pub fn switches(&self) -> u64 {
        self.st.lock().unwrap().switches
    }
}

impl Task {
    /// for objects which are handed from thread to thread
    pub fn anywhere(&self) -> Task {
        Task { s: self.s.clone(), id: HERE }
    }
    fn me(&self) -> usize {
        if self.id == HERE { ME.with(|m| m.get()) } else { self.id }
    }
    /// first thing a task's thread does
    pub fn begin(&self) {
        ME.with(|m| m.set(self.id));
        let mut st = self.s.st.lock().unwrap();
        st.started += 1;
        self.s.cv.notify_all();
        while st.current != self.me() {
            st = self.s.cv.wait(st).unwrap();
        }
    }
    fn choose(&self, st: &mut State, must_move: bool) {
        let others: Vec<usize> = (0..self.s.n).filter(|&i| st.alive[i] && i != self.me()).collect();
        if others.is_empty() {
            return;
        }
        st.points += 1;
        if must_move || (st.points < 4000 && self.s.ctx.chance(1, st.stay)) {
            let next = others[self.s.ctx.us(others.len())];
            st.switches += 1;
            st.current = next;
            self.s.ctx.event(77, self.me() as u64, next as u64);
            self.s.ctx.log(|| format!("switch from task {} to task {next}", self.me()));
        }
    }
    pub fn yield_point(&self) {
        let mut st = self.s.st.lock().unwrap();
        self.choose(&mut st, false);
        if st.current != self.me() {
            self.s.cv.notify_all();
            while st.current != self.me() {
                st = self.s.cv.wait(st).unwrap();
            }
        }
    }
    /// let somebody else run if there is anybody
    pub fn pass(&self) -> bool {
        let mut st = self.s.st.lock().unwrap();
        let any = (0..self.s.n).any(|i| st.alive[i] && i != self.me());
        self.choose(&mut st, true);
        if st.current != self.me() {
            self.s.cv.notify_all();
            while st.current != self.me() {
                st = self.s.cv.wait(st).unwrap();
            }
        }
        any
    }
    pub fn end(&self) {
        let mut st = self.s.st.lock().unwrap();
        st.alive[self.me()] = false;
        self.choose(&mut st, true);
        self.s.cv.notify_all();
    }
}
