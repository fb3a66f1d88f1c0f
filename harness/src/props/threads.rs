use super::changeset::cdiff;
use super::pipeline::{edit, same};
use super::write::judge_doc;
use crate::ctx::{Ctx, Res, Violation, fail};
use crate::doc::{self, Fmt};
use crate::generate::{self as mk, Chars};
use crate::io::{SimReader, SimWriter};
use crate::model::{Kind, MObj, build, diff, extract};
use crate::pbf::{self, Opts};
use crate::rt::*;
use crate::sched::{Sched, Task};
use osmio::obj_types::{ArcOSMObj, StringOSMObj};
use osmio::osc::OSCWriter;
use osmio::prelude::*;
use osmio::xml::XMLWriter;
use osmio::{OSMWriter, OSMReader};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

type Job = Box<dyn FnOnce(&Ctx, &Task) -> Res + Send>;

struct Queue {
    items: Mutex<VecDeque<(usize, ArcOSMObj)>>,
    /// producers still at work
    open: Mutex<usize>,
    objs: Vec<MObj>,
}

fn small(ctx: &Ctx) -> Opts {
    Opts { max_blocks: 4, max_group: 8, big: ctx.chance(1, 10), ..Opts::default() }
}

fn run_reader<O: OSMObj>(ctx: &Ctx, want: &[MObj], mut next: impl FnMut() -> Option<O>) -> Res {
    drain(ctx, want.len() + 20, &mut next, extract).must_be_all(want)
}

fn source(ctx: &Ctx, t: &Task, bytes: Vec<u8>) -> SimReader {
    let mut rd = SimReader::planned(ctx, Arc::new(bytes));
    rd.sched = Some(t.clone());
    rd
}

fn opened<O>(r: Result<Next<O>, String>) -> Result<Next<O>, Violation> {
    match r {
        Ok(n) => Ok(n),
        Err(e) => fail("open", e),
    }
}

fn reader_job(ctx: &Ctx, n: usize) -> (Job, String) {
    match n {
        0 | 1 => {
            let f = pbf::file(ctx, &small(ctx));
            let arc = n == 1;
            (
                Box::new(move |ctx, t| {
                    let rd = source(ctx, t, f.bytes);
                    let via = Via::draw(ctx);
                    if arc { run_reader(ctx, &f.objs, opened(open_arc(&rd, via, false))?) } else { run_reader(ctx, &f.objs, opened(open_string(&rd, via, true))?) }
                }),
                if arc { "arc reader".into() } else { "string reader".into() },
            )
        }
        2 => {
            let f = pbf::file(ctx, &small(ctx));
            (
                Box::new(move |ctx, t| {
                    let rd = source(ctx, t, f.bytes);
                    let mut next = opened(open_nodepos(&rd, Via::draw(ctx)))?;
                    let want: Vec<NodePos> = f.objs.iter().filter(|o| o.kind == Kind::Node).map(|o| (o.id, o.pos.unwrap())).collect();
                    for (i, w) in want.iter().enumerate() {
                        match guard(&mut next) {
                            Ok(Some(g)) if g == *w => {}
                            Ok(g) => return fail("wrong object", format!("position {i} should be {w:?} but is {g:?}")),
                            Err(s) => return bad(&s, "node positions"),
                        }
                    }
                    match guard(&mut next) {
                        Ok(None) => Ok(()),
                        Ok(g) => fail("wrong object", format!("one position too many: {g:?}")),
                        Err(s) => bad(&s, "node positions"),
                    }
                }),
                "position reader".into(),
            )
        }
        3 | 4 => {
            let fmt = if n == 3 { Fmt::Xml } else { Fmt::Osc };
            let d = doc::osm_doc(ctx, fmt, 12);
            (
                Box::new(move |ctx, t| {
                    let rd = source(ctx, t, d.bytes);
                    let via = Via::draw(ctx);
                    let next = if fmt == Fmt::Xml { open_xml(&rd, via, true) } else { open_osc(&rd, via, false) };
                    run_reader(ctx, &d.objs, opened(next)?)
                }),
                format!("{fmt:?} reader"),
            )
        }
        _ => {
            let d = doc::changesets(ctx, 12);
            (
                Box::new(move |ctx, t| {
                    let rd = source(ctx, t, d.bytes);
                    let mut r = osmio::changesets::ChangesetReader::new(rd);
                    for (i, w) in d.cs.iter().enumerate() {
                        match guard(|| r.next()) {
                            Ok(Some(Ok(c))) => {
                                if let Some(x) = cdiff(w, &c) {
                                    return fail("wrong object", x);
                                }
                            }
                            Ok(Some(Err(e))) => return fail("error", format!("changeset {i}: {e}")),
                            Ok(None) => return fail("lost object", format!("end before changeset {i}")),
                            Err(s) => return bad(&s, "changesets"),
                        }
                    }
                    match guard(|| r.next()) {
                        Ok(None) => Ok(()),
                        Ok(_) => fail("wrong object", "something after the last changeset"),
                        Err(s) => bad(&s, "changesets"),
                    }
                }),
                "changeset reader".into(),
            )
        }
    }
}

macro_rules! lib {
    ($what:expr, $call:expr) => {
        match guard(|| $call) {
            Ok(x) => x,
            Err(s) => return bad(&s, $what),
        }
    };
}

fn write_all<T: OSMWriter<SimWriter>>(ctx: &Ctx, fmt: Fmt, t: &Task, objs: &[MObj]) -> Res {
    let mut sink = SimWriter::planned(ctx);
    sink.sched = Some(t.clone());
    let mut w = lib!("new", T::new(sink.clone()));
    for o in objs {
        if let Err(e) = lib!("write_obj", w.write_obj(&build(o))) {
            return fail("error", format!("write_obj: {e}"));
        }
    }
    if let Err(e) = lib!("close", w.close()) {
        return fail("error", format!("close: {e}"));
    }
    let bytes = sink.bytes();
    lib!("drop", drop(w));
    judge_doc(ctx, fmt, &bytes, &vec![], objs)
}

fn writer_job(ctx: &Ctx) -> (Job, String) {
    let fmt = if ctx.chance(1, 2) { Fmt::Osc } else { Fmt::Xml };
    let objs = mk::objects(ctx, 8, Chars::Xml);
    ctx.objects(objs.len());
    (
        Box::new(move |ctx, t| match fmt {
            Fmt::Xml => write_all::<XMLWriter<_>>(ctx, fmt, t, &objs),
            Fmt::Osc => write_all::<OSCWriter<_>>(ctx, fmt, t, &objs),
        }),
        format!("{fmt:?} writer"),
    )
}

/// What is handed from thread to thread. The library's readers and writers may be moved to other threads; the
/// closures around them are not known to the compiler to be as good.
struct Handed(Box<dyn FnMut(&Ctx) -> Result<bool, Violation>>);
// SAFETY: they are moved as a whole, and used by one thread at a time
unsafe impl Send for Handed {}

fn handed_reader<O: OSMObj + 'static>(mut next: Next<O>, want: Vec<MObj>) -> Handed {
    let mut at = 0;
    Handed(Box::new(move |_| {
        let o = lib!("reader", next());
        match (o, want.get(at)) {
            (None, None) => Ok(true),
            (None, Some(w)) => fail("lost object", format!("end before object {at}, {}", w.short())),
            (Some(_), None) => fail("wrong object", "one object too many"),
            (Some(o), Some(w)) => {
                same(&o, w, &format!("object {at}"))?;
                at += 1;
                Ok(false)
            }
        }
    }))
}

fn handed_writer<T: OSMWriter<SimWriter> + 'static>(mut w: T, sink: SimWriter, fmt: Fmt, objs: Vec<MObj>) -> Handed {
    let mut at = 0;
    Handed(Box::new(move |ctx| {
        let r = match objs.get(at) {
            Some(o) => lib!("write_obj", w.write_obj(&build(o))),
            None => lib!("close", w.close()),
        };
        if let Err(e) = r {
            return fail("error", format!("call {at}: {e}"));
        }
        at += 1;
        if at <= objs.len() {
            return Ok(false);
        }
        judge_doc(ctx, fmt, &sink.bytes(), &vec![], &objs)?;
        Ok(true)
    }))
}

/// a reader or writer which two threads use in turns, handing it over between two objects
fn handed_jobs(ctx: &Ctx) -> [(Job, String); 2] {
    type Make = Box<dyn FnOnce(&Ctx, &Task) -> Result<Handed, Violation> + Send>;
    let (make, what): (Make, &str) = match ctx.us(7) {
        k @ (0 | 1) => {
            let f = pbf::file(ctx, &small(ctx));
            let make = Box::new(move |ctx: &Ctx, t: &Task| {
                let rd = source(ctx, t, f.bytes);
                let via = Via::draw(ctx);
                Ok(if k == 0 { handed_reader(opened(open_string(&rd, via, false))?, f.objs) } else { handed_reader(opened(open_arc(&rd, via, false))?, f.objs) })
            });
            (make, if k == 0 { "string reader" } else { "arc reader" })
        }
        k @ (2 | 3) => {
            let fmt = if k == 2 { Fmt::Xml } else { Fmt::Osc };
            let d = doc::osm_doc(ctx, fmt, 12);
            let make = Box::new(move |ctx: &Ctx, t: &Task| {
                let rd = source(ctx, t, d.bytes);
                let via = Via::draw(ctx);
                let next = if fmt == Fmt::Xml { open_xml(&rd, via, false) } else { open_osc(&rd, via, false) };
                Ok(handed_reader(opened(next)?, d.objs))
            });
            (make, if k == 2 { "XML reader" } else { "OSC reader" })
        }
        4 => {
            let fmt = if ctx.chance(1, 2) { Fmt::Osc } else { Fmt::Xml };
            let objs = mk::objects(ctx, 8, Chars::Xml);
            let make = Box::new(move |ctx: &Ctx, t: &Task| {
                let mut sink = SimWriter::planned(ctx);
                sink.sched = Some(t.clone());
                Ok(match fmt {
                    Fmt::Xml => handed_writer(lib!("new", XMLWriter::new(sink.clone())), sink, fmt, objs),
                    Fmt::Osc => handed_writer(lib!("new", OSCWriter::new(sink.clone())), sink, fmt, objs),
                })
            });
            (make, "writer")
        }
        k => {
            let d = doc::changesets(ctx, 12);
            let z = doc::bz2(ctx, &d.bytes).0;
            let make = Box::new(move |ctx: &Ctx, t: &Task| {
                let rd = source(ctx, t, if k == 5 { d.bytes } else { z });
                let cs = d.cs;
                Ok(if k == 5 {
                    let mut r = osmio::changesets::ChangesetReader::new(rd);
                    super::changeset::handed(move || r.next(), cs)
                } else {
                    let mut r = match lib!("open", super::changeset::open_tags(&rd)) {
                        Ok(r) => r,
                        Err(e) => return fail("open", e),
                    };
                    super::changeset::handed(move || r(), cs)
                })
                .map(|mut f| Handed(Box::new(move |_| f())))
            });
            (make, if k == 5 { "changeset reader" } else { "tag reader" })
        }
    };
    let slot: Arc<Mutex<Slot>> = Arc::new(Mutex::new(Slot::New(make)));
    enum Slot {
        New(Make),
        Free(Handed),
        Taken,
        Over,
    }
    [0, 1].map(|_| {
        let slot = slot.clone();
        let job: Job = Box::new(move |ctx, t| {
            loop {
                let was = std::mem::replace(&mut *slot.lock().unwrap(), Slot::Taken);
                let mut h = match was {
                    Slot::Over => {
                        *slot.lock().unwrap() = Slot::Over;
                        return Ok(());
                    }
                    Slot::Taken => {
                        t.pass();
                        continue;
                    }
                    Slot::New(make) => match make(ctx, &t.anywhere()) {
                        Ok(h) => h,
                        Err(v) => {
                            *slot.lock().unwrap() = Slot::Over;
                            return Err(v);
                        }
                    },
                    Slot::Free(h) => h,
                };
                let r = (h.0)(ctx);
                let over = !matches!(r, Ok(false));
                if over {
                    drop(h);
                    *slot.lock().unwrap() = Slot::Over;
                    return r.map(|_| ());
                }
                *slot.lock().unwrap() = Slot::Free(h);
                ctx.probe("handed_over");
                if ctx.chance(1, 2) {
                    t.pass();
                }
            }
        });
        (job, format!("{what} handed over"))
    })
}

/// two readers of one thread, taken in turns
fn alternating_job(ctx: &Ctx) -> (Job, String) {
    let a = pbf::file(ctx, &small(ctx));
    let b = pbf::file(ctx, &small(ctx));
    let d = doc::osm_doc(ctx, Fmt::Xml, 10);
    let arc = ctx.chance(1, 2);
    (
        Box::new(move |ctx, t| {
            let mut ra = osmio::arcpbf::PBFReader::new(source(ctx, t, a.bytes));
            let mut rx = osmio::xml::XMLReader::new(source(ctx, t, d.bytes));
            let sb = source(ctx, t, b.bytes);
            let mut rb: Next<StringOSMObj> = if arc {
                let mut r = osmio::arcpbf::PBFReader::new(sb);
                Box::new(move || r.next().map(|o| o.into()))
            } else {
                let mut r = osmio::pbf::PBFReader::new(sb);
                Box::new(move || r.next())
            };
            let mut at = [0usize; 3];
            let mut over = [false; 3];
            let mut kept: Vec<(usize, ArcOSMObj)> = Vec::new();
            while over.contains(&false) {
                let live: Vec<usize> = (0..3).filter(|j| !over[*j]).collect();
                let k = *ctx.pick(&live);
                step(ctx, k, &mut at, &mut over, &mut ra, &mut rb, &mut rx, [&a.objs, &b.objs, &d.objs], &mut kept)?;
            }
            drop((ra, rb, rx));
            for (i, o) in &kept {
                same(o, &a.objs[*i], "object kept beyond its reader")?;
            }
            Ok(())
        }),
        "three readers in turns".into(),
    )
}

#[allow(clippy::too_many_arguments)]
fn step(
    ctx: &Ctx,
    k: usize,
    at: &mut [usize; 3],
    over: &mut [bool; 3],
    ra: &mut osmio::arcpbf::PBFReader<SimReader>,
    rb: &mut Next<StringOSMObj>,
    rx: &mut osmio::xml::XMLReader<SimReader>,
    want: [&Vec<MObj>; 3],
    kept: &mut Vec<(usize, ArcOSMObj)>,
) -> Res {
    let got = match k {
        0 => {
            let o = lib!("arc reader", ra.next());
            o.map(|o| {
                let m = extract(&o);
                if ctx.chance(1, 2) {
                    kept.push((at[0], o));
                }
                m
            })
        }
        1 => lib!("second PBF reader", rb()).map(|o| extract(&o)),
        _ => lib!("XML reader", rx.next()).map(|o| extract(&o)),
    };
    match (got, want[k].get(at[k])) {
        (None, None) => over[k] = true,
        (None, Some(_)) => return fail("lost object", format!("reader {k} ends before its object {}", at[k])),
        (Some(Err(e)), _) => return fail("wrong object", e),
        (Some(Ok(g)), None) => return fail("wrong object", format!("reader {k}: {} is one too many", g.short())),
        (Some(Ok(g)), Some(w)) => {
            if let Some(d) = diff(w, &g) {
                return fail("wrong object", format!("reader {k} object {}: {d}", at[k]));
            }
            at[k] += 1;
        }
    }
    Ok(())
}

fn producer_job(ctx: &Ctx, q: Arc<Queue>, bytes: Vec<u8>, copies: usize) -> (Job, String) {
    let keep = ctx.chance(1, 2);
    (
        Box::new(move |ctx, t| {
            let res = (|| {
                let mut r = osmio::arcpbf::PBFReader::new(source(ctx, t, bytes));
                let mut kept = Vec::new();
                for i in 0..q.objs.len() {
                    match lib!("reader", r.next()) {
                        None => return fail("lost object", format!("end before object {i}")),
                        Some(o) => {
                            same(&o, &q.objs[i], &format!("object {i}"))?;
                            for _ in 0..copies {
                                q.items.lock().unwrap().push_back((i, o.clone()));
                            }
                            if keep {
                                kept.push((i, o));
                            }
                        }
                    }
                    if ctx.chance(1, 6) {
                        t.yield_point();
                    }
                }
                if lib!("reader", r.next()).is_some() {
                    return fail("wrong object", "one object too many");
                }
                drop(r);
                t.yield_point();
                for (i, o) in &kept {
                    same(o, &q.objs[*i], "object kept by the producer")?;
                }
                Ok(())
            })();
            *q.open.lock().unwrap() -= 1;
            res
        }),
        "producer of shared objects".into(),
    )
}

fn consumer_job(ctx: &Ctx, q: Arc<Queue>) -> (Job, String) {
    let hold = ctx.us(6);
    (
        Box::new(move |ctx, t| {
            let mut mine: Vec<(usize, ArcOSMObj, MObj)> = Vec::new();
            loop {
                let item = q.items.lock().unwrap().pop_front();
                match item {
                    None if *q.open.lock().unwrap() == 0 => break,
                    None => {
                        t.pass();
                    }
                    Some((i, o)) => {
                        ctx.probe("object_crossed_threads");
                        same(&o, &q.objs[i], &format!("object {i} on another thread"))?;
                        let mut c = o.clone();
                        let mut m = q.objs[i].clone();
                        for _ in 0..ctx.us(3) {
                            lib!("editing", edit(ctx, &mut c, &mut m, Chars::Any));
                            t.yield_point();
                        }
                        same(&c, &m, &format!("edited clone of object {i}"))?;
                        same(&o, &q.objs[i], &format!("object {i} after its clone was edited"))?;
                        if ctx.chance(1, 2) {
                            mine.push((i, o, q.objs[i].clone()));
                        } else {
                            mine.push((i, c, m));
                        }
                        if mine.len() > hold {
                            let k = ctx.us(mine.len());
                            let (i, o, m) = mine.swap_remove(k);
                            same(&o, &m, &format!("object {i} some time later"))?;
                        }
                        if ctx.chance(1, 4) {
                            t.yield_point();
                        }
                    }
                }
            }
            for (i, o, m) in &mine {
                same(o, m, &format!("object {i} in the end"))?;
            }
            Ok(())
        }),
        "consumer of shared objects".into(),
    )
}

pub fn c20(ctx: &Ctx) -> Res {
    ctx.no_huge();
    let mut jobs: Vec<(Job, String)> = Vec::new();
    if ctx.chance(1, 2) {
        let f = pbf::file(ctx, &small(ctx));
        let copies = 1 + ctx.us(2);
        let q = Arc::new(Queue { items: Mutex::new(VecDeque::new()), open: Mutex::new(1), objs: f.objs });
        jobs.push(producer_job(ctx, q.clone(), f.bytes, copies));
        for _ in 0..1 + ctx.us(2) {
            jobs.push(consumer_job(ctx, q.clone()));
        }
    }
    if ctx.chance(1, 4) {
        jobs.extend(handed_jobs(ctx));
    }
    while jobs.len() < 2 || (jobs.len() < 5 && ctx.chance(1, 2)) {
        jobs.push(match ctx.weighted(&[5, 2, 1]) {
            0 => {
                let n = ctx.us(6);
                reader_job(ctx, n)
            }
            1 => writer_job(ctx),
            _ => alternating_job(ctx),
        });
    }
    ctx.summary(|| format!("tasks {:?}", jobs.iter().map(|j| j.1.as_str()).collect::<Vec<_>>()));
    let sched = Sched::new(ctx, jobs.len());
    let verdicts: Arc<Mutex<Vec<(String, Violation)>>> = Arc::default();
    let mut handles = Vec::new();
    for (id, (job, name)) in jobs.into_iter().enumerate() {
        let (ctx, task, verdicts) = (ctx.clone(), sched.task(id), verdicts.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    task.begin();
                    let r = match guard(|| job(&ctx, &task)) {
                        Ok(r) => r,
                        Err(s) => bad(&s, "task"),
                    };
                    if let Err(v) = r {
                        verdicts.lock().unwrap().push((name, v));
                    }
                    task.end();
                })
                .unwrap(),
        );
    }
    sched.start();
    for h in handles {
        if h.join().is_err() {
            return fail("panic", "a task's thread died");
        }
    }
    let n = sched.switches();
    ctx.probe_if(n > 20, "over_20_switches");
    {
        let mut g = ctx.lock();
        *g.faults.entry("thread_switch".into()).or_insert(0) += n;
    }
    match verdicts.lock().unwrap().first() {
        None => Ok(()),
        Some((name, v)) => fail(&v.class, format!("{name}: {}", v.msg)),
    }
}
