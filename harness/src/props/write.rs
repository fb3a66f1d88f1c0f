use crate::ctx::{Ctx, Res, Violation, fail};
use crate::doc::Fmt;
use crate::generate::{self as mk, Chars};
use crate::io::{ERR_KINDS, SimReader, SimWriter, WFault, WFaultKind};
use crate::model::{MObj, Ts, build, diff_all, extract};
use crate::rt::*;
use crate::sxml;
use osmio::obj_types::StringOSMObj;
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{OSMReader, OSMWriteError, OSMWriter};
use std::io::{BufWriter, LineWriter, Write};
use std::sync::Arc;

type Headers = Vec<(String, String)>;

fn header(ctx: &Ctx) -> (String, String) {
    let k = *ctx.pick(&["license", "copyright", "attribution", "version", "generator", "upload", "x-y", "_a", "a.b", "\u{e9}t\u{e9}"]);
    (k.to_string(), mk::text(ctx, Chars::Xml))
}

/// a later header of the same name replaces the earlier one
fn effective(h: &[(String, String)]) -> Headers {
    let mut v: Headers = Vec::new();
    for (k, val) in h {
        match v.iter_mut().find(|(a, _)| a == k) {
            Some(e) => e.1 = val.clone(),
            None => v.push((k.clone(), val.clone())),
        }
    }
    v
}

fn workload(ctx: &Ctx, max: u64) -> Vec<MObj> {
    let mut objs = if ctx.huge(300) { mk::small_objects(ctx, Chars::Xml) } else { mk::objects(ctx, max, Chars::Xml) };
    for o in &mut objs {
        if ctx.chance(1, 40) {
            // a timestamp is kept as the string it came as
            o.ts = Some(Ts::Iso(mk::text(ctx, Chars::Xml)));
        }
        if ctx.chance(1, 80) {
            let n = mk::big_len(ctx);
            o.set_tag("big", &mk::big_text(ctx, n));
        }
    }
    ctx.objects(objs.len());
    for o in &objs {
        ctx.event(5, o.id as u64, o.tags.len() as u64);
    }
    objs
}

/// strict reading of a finished document
pub fn parse(fmt: Fmt, bytes: &[u8]) -> Result<(Headers, Vec<MObj>), String> {
    match fmt {
        Fmt::Xml => sxml::osm(bytes),
        Fmt::Osc => sxml::osc(bytes),
    }
}

pub fn lib_read(ctx: &Ctx, fmt: Fmt, rd: SimReader, max: usize) -> Drained {
    match fmt {
        Fmt::Xml => {
            let mut r = XMLReader::new(rd);
            drain(ctx, max, move || r.next(), extract)
        }
        Fmt::Osc => {
            let mut r = OSCReader::new(rd);
            drain(ctx, max, move || r.next(), extract)
        }
    }
}

fn shorten(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let n = s.chars().count();
    if n <= 700 { s.into_owned() } else { s.chars().take(300).chain(" ... ".chars()).chain(s.chars().skip(n - 300)).collect() }
}

pub fn judge_doc(ctx: &Ctx, fmt: Fmt, bytes: &[u8], headers: &Headers, objs: &[MObj]) -> Res {
    let (attrs, got) = match parse(fmt, bytes) {
        Ok(x) => x,
        Err(e) => return fail("malformed", format!("{e}; the sink holds {:?}", shorten(bytes))),
    };
    if fmt == Fmt::Xml {
        for (k, v) in headers {
            match attrs.iter().find(|(a, _)| a == k) {
                Some((_, g)) if g == v => {}
                g => return fail("header", format!("header {k:?} should be {v:?} but is {:?}", g.map(|x| &x.1))),
            }
        }
        if let Some((k, v)) = attrs.iter().find(|(a, _)| !headers.iter().any(|(k, _)| k == a) && a != "version" && a != "generator") {
            return fail("header", format!("nobody asked for header {k:?} = {v:?}"));
        }
    }
    if let Some(d) = diff_all(objs, &got) {
        return fail("wrong object", format!("read back by an XML parser: {d}"));
    }
    let rd = SimReader::planned(ctx, Arc::new(bytes.to_vec()));
    let res = lib_read(ctx, fmt, rd, objs.len() + 20);
    match res.must_be_all(objs) {
        Ok(()) => Ok(()),
        Err(v) => fail(&v.class, format!("read back by the library: {}", v.msg)),
    }
}

macro_rules! lib {
    ($what:expr, $call:expr) => {
        match guard(|| $call) {
            Ok(x) => x,
            Err(s) => return bad(&s, $what),
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Close,
    Drop,
    FromIter,
    FromIterDrop,
}

fn faithful<W: Write, T: OSMWriter<W>>(ctx: &Ctx, fmt: Fmt, w: W, sink: &SimWriter, mode: Mode, headers: &Headers, objs: &[MObj]) -> Res {
    let built: Vec<StringOSMObj> = objs.iter().map(build).collect();
    match mode {
        Mode::FromIter | Mode::FromIterDrop => {
            let t = lib!("from_iter", T::from_iter(w, built.into_iter()));
            if mode == Mode::FromIter {
                judge_doc(ctx, fmt, &sink.bytes(), &vec![], objs)?;
            }
            if lib!("is_open", t.is_open()) {
                return fail("life cycle", "from_iter returns an open writer");
            }
            Ok(())
        }
        Mode::Close | Mode::Drop => {
            let mut t = lib!("new", T::new(w));
            for (k, v) in headers {
                if let Err(e) = lib!("set_header", t.set_header((k, v))) {
                    return fail("error", format!("set_header({k:?}, {v:?}): {e}"));
                }
            }
            for (i, o) in built.iter().enumerate() {
                if let Err(e) = lib!("write_obj", t.write_obj(o)) {
                    return fail("error", format!("write_obj of object {i}: {e}"));
                }
                ctx.log(|| format!("object {i} written"));
            }
            if mode == Mode::Close {
                if let Err(e) = lib!("close", t.close()) {
                    return fail("error", format!("close: {e}"));
                }
                judge_doc(ctx, fmt, &sink.bytes(), &effective(headers), objs)?;
                lib!("drop", drop(t));
                Ok(())
            } else {
                lib!("drop", drop(t));
                judge_doc(ctx, fmt, &sink.bytes(), &effective(headers), objs)
            }
        }
    }
}

fn written(ctx: &Ctx, fmt: Fmt) -> Res {
    let objs = workload(ctx, 30);
    let mode = [Mode::Close, Mode::Drop, Mode::FromIter, Mode::FromIterDrop][ctx.weighted(&[5, 3, 2, 1])];
    let mut headers = Vec::new();
    if fmt == Fmt::Xml && matches!(mode, Mode::Close | Mode::Drop) && ctx.chance(1, 2) {
        for _ in 0..ctx.range(1, 4) {
            headers.push(header(ctx));
        }
    }
    let sink = SimWriter::planned(ctx);
    let kind = ctx.weighted(&[5, 3, 1, 1, 1]);
    let cap = *ctx.pick(&[8192usize, 1, 7, 64, 0, 1000]);
    ctx.summary(|| format!("{fmt:?} {mode:?} {} objects, headers {headers:?}, sink wrapper {kind}", objs.len()));
    macro_rules! go {
        ($t:ident) => {{
            match kind {
                0 => faithful::<_, $t<_>>(ctx, fmt, sink.clone(), &sink, mode, &headers, &objs),
                1 => faithful::<_, $t<_>>(ctx, fmt, BufWriter::with_capacity(cap, sink.clone()), &sink, mode, &headers, &objs),
                2 => faithful::<_, $t<_>>(ctx, fmt, Box::new(sink.clone()) as Box<dyn Write>, &sink, mode, &headers, &objs),
                3 => faithful::<_, $t<_>>(ctx, fmt, &mut sink.clone(), &sink, mode, &headers, &objs),
                _ => faithful::<_, $t<_>>(ctx, fmt, LineWriter::with_capacity(cap, sink.clone()), &sink, mode, &headers, &objs),
            }
        }};
    }
    match fmt {
        Fmt::Xml => go!(XMLWriter),
        Fmt::Osc => go!(OSCWriter),
    }
}

pub fn c12(ctx: &Ctx) -> Res {
    written(ctx, Fmt::Xml)
}

pub fn c13(ctx: &Ctx) -> Res {
    written(ctx, Fmt::Osc)
}

// ---- C14

/// the same calls on a perfect sink: the document and where it stands after every call
struct Twin {
    bytes: Vec<u8>,
    after: Vec<usize>,
}

/// whether the unfinished document has all these objects
fn missing(fmt: Fmt, bytes: &[u8], objs: &[StringOSMObj]) -> Option<String> {
    let ends: &[&str] = match fmt {
        Fmt::Xml => &["</osm>"],
        Fmt::Osc => &["</modify></osmChange>", "</create></osmChange>", "</delete></osmChange>", "</osmChange>"],
    };
    let want = match objs.iter().map(extract).collect::<Result<Vec<MObj>, String>>() {
        Ok(w) => w,
        Err(e) => return Some(e),
    };
    let mut why = String::new();
    for e in ends {
        let mut b = bytes.to_vec();
        b.extend_from_slice(e.as_bytes());
        match parse(fmt, &b) {
            Ok((_, got)) => return diff_all(&want, &got),
            Err(e) if why.is_empty() => why = e,
            Err(_) => {}
        }
    }
    Some(why)
}

fn twin<T: OSMWriter<SimWriter>>(ctx: &Ctx, fmt: Fmt, header: &Option<(String, String)>, objs: &[StringOSMObj]) -> Result<Twin, Violation> {
    // not part of the run's history
    let quiet = Ctx::new(crate::tape::Tape::replay(vec![]), false);
    let sink = SimWriter::plain(&quiet);
    let mut t = lib!("new", T::new(sink.clone()));
    if let Some((k, v)) = header {
        if let Err(e) = lib!("set_header", t.set_header((k, v))) {
            return fail("error", format!("set_header on a perfect sink: {e}"));
        }
    }
    let mut after = Vec::new();
    for o in objs {
        if let Err(e) = lib!("write_obj", t.write_obj(o)) {
            return fail("error", format!("write_obj on a perfect sink: {e}"));
        }
        after.push(sink.len());
        if let Some(d) = missing(fmt, &sink.bytes(), &objs[..after.len()]) {
            return fail("lost object", format!("{} objects are acknowledged, but what has reached the sink is not all of them: {d}", after.len()));
        }
    }
    if let Err(e) = lib!("close", t.close()) {
        return fail("error", format!("close on a perfect sink: {e}"));
    }
    let bytes = sink.bytes();
    lib!("drop", drop(t));
    ctx.event(9, bytes.len() as u64, 0);
    Ok(Twin { bytes, after })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum After {
    Stop,
    GoOn,
    Retry,
}

struct Failing<'a> {
    ctx: &'a Ctx,
    fmt: Fmt,
    sink: SimWriter,
    buffered: bool,
    header: Option<(String, String)>,
    objs: &'a [MObj],
    built: Vec<StringOSMObj>,
    twin: Twin,
    after: After,
    close: bool,
    unwind: bool,
}

impl Failing<'_> {
    fn run<W: Write, T: OSMWriter<W>>(&self, w: W) -> Res {
        let ctx = self.ctx;
        let mut t = lib!("new", T::new(w));
        if let Some((k, v)) = &self.header {
            let before = self.sink.fired();
            let r = lib!("set_header", t.set_header((k, v)));
            if r.is_err() && self.sink.fired() == before {
                return fail("error", format!("set_header: {r:?} although the sink has not failed"));
            }
        }
        let mut acked: Vec<MObj> = Vec::new();
        let mut failed = false;
        let mut i = 0;
        let mut tries = 0;
        let mut closed = false;
        while i < self.built.len() {
            let before = self.sink.fired();
            let r = lib!("write_obj", t.write_obj(&self.built[i]));
            let hit = self.sink.fired() > before;
            ctx.log(|| format!("write_obj {i} -> {r:?}"));
            match (&r, hit) {
                (Ok(()), true) => return fail("swallowed", format!("the sink failed during write_obj of object {i}, which returned Ok")),
                (Err(e), false) if !failed => return fail("error", format!("write_obj of object {i} fails ({e}) although the sink has not")),
                _ => {}
            }
            if !failed {
                self.prefix(if i == 0 { 0 } else { self.twin.after[i - 1] }, self.twin.after[i], r.is_ok(), &format!("object {i}"))?;
            }
            tries += 1;
            match r {
                Ok(()) => {
                    acked.push(self.objs[i].clone());
                    i += 1;
                }
                Err(_) => {
                    failed = true;
                    match self.after {
                        After::Stop => break,
                        After::GoOn => i += 1,
                        After::Retry if tries < 60 => {}
                        After::Retry => break,
                    }
                }
            }
        }
        if self.close {
            for _ in 0..3 {
                let before = self.sink.fired();
                let r = lib!("close", t.close());
                let hit = self.sink.fired() > before;
                ctx.log(|| format!("close -> {r:?}"));
                match (&r, hit) {
                    (Ok(()), true) => return fail("swallowed", "the sink failed during close, which returned Ok"),
                    (Err(e), false) if !failed => return fail("error", format!("close fails ({e}) although the sink has not")),
                    _ => {}
                }
                if r.is_ok() {
                    let st = self.sink.lock();
                    if st.flushed != st.buf.len() {
                        return fail("unflushed", format!("close returned Ok, but only {} of {} bytes are flushed", st.flushed, st.buf.len()));
                    }
                    if !failed && st.buf != self.twin.bytes {
                        return fail("incomplete", format!("close returned Ok, but the sink holds {} bytes instead of the {} of the document", st.buf.len(), self.twin.bytes.len()));
                    }
                    closed = true;
                    break;
                }
                if !failed {
                    self.prefix(self.twin.after.last().copied().unwrap_or(0), self.twin.bytes.len(), false, "close")?;
                }
                failed = true;
                ctx.probe("close_failed");
                if self.after == After::Stop {
                    break;
                }
            }
            if closed {
                self.left(&acked, "after close")?;
            }
        }
        if self.unwind {
            // the caller dies of something else
            ctx.fault("drop_while_unwinding");
            match guard(|| {
                let _t = t;
                std::panic::resume_unwind(Box::new("the caller's own panic"));
            }) {
                Err(Stop::Panic(m)) if m == "the caller's own panic" => {}
                Err(s) => return bad(&s, "drop while unwinding"),
                Ok(()) => unreachable!(),
            }
        } else {
            lib!("drop", drop(t));
        }
        ctx.probe_if(failed, "write_failure_surfaced");
        self.left(&acked, "in the end")
    }

    /// the same through from_iter, which can only panic
    fn run_from_iter<W: Write, T: OSMWriter<W>>(&self, w: W) -> Res {
        let ctx = self.ctx;
        let went_on = std::cell::Cell::new(None);
        let taken = std::cell::Cell::new(0);
        let it = self.built.iter().cloned().inspect(|_| {
            taken.set(taken.get() + 1);
            if self.sink.fired() > 0 && went_on.get().is_none() {
                went_on.set(Some(taken.get() - 1));
            }
        });
        // the writer is kept: dropping it may write, which C15 judges
        let r = guard(|| T::from_iter(w, it));
        let r = r.map(|t| (t.is_open(), t));
        let fired = self.sink.fired();
        ctx.log(|| format!("from_iter -> {:?}, {fired} sink failures, {} objects taken", r.as_ref().map(|r| r.0), taken.get()));
        if let Some(i) = went_on.get() {
            return fail("swallowed", format!("the sink failed before from_iter took object {i}, which it still did"));
        }
        match r {
            Ok((open, _t)) => {
                if fired > 0 {
                    return fail("swallowed", "the sink failed during from_iter, which returned a writer");
                }
                if open {
                    return fail("life cycle", "from_iter returns an open writer");
                }
                let st = self.sink.lock();
                if st.flushed != st.buf.len() {
                    return fail("unflushed", format!("from_iter returned, but only {} of {} bytes are flushed", st.flushed, st.buf.len()));
                }
                if st.buf != self.twin.bytes {
                    return fail("incomplete", format!("from_iter returned, but the sink holds {} bytes instead of the {} of the document", st.buf.len(), self.twin.bytes.len()));
                }
                Ok(())
            }
            Err(Stop::Panic(_)) if fired > 0 => {
                ctx.probe("from_iter_failed");
                // the objects before the failed one are acknowledged, and that one may be
                let n = taken.get();
                let res = self.left(&self.objs[..n], "after from_iter's panic");
                if res.is_err() && n > 0 { self.left(&self.objs[..n - 1], "after from_iter's panic") } else { res }
            }
            Err(s) => bad(&s, "from_iter on a sink which has not failed"),
        }
    }

    /// what the sink holds up to and including the first failure
    fn prefix(&self, lo: usize, hi: usize, complete: bool, what: &str) -> Res {
        let st = self.sink.lock();
        let lo = if complete { hi } else { lo };
        if st.buf.len() > self.twin.bytes.len() || self.twin.bytes[..st.buf.len()] != st.buf[..] {
            return fail("corrupt", format!("{what}: what is in the sink is no prefix of the document: {:?}", shorten(&st.buf)));
        }
        if self.buffered {
            return Ok(());
        }
        if st.buf.len() < lo {
            return fail("lost object", format!("{what}: acknowledged up to byte {lo}, but the sink holds only {} bytes", st.buf.len()));
        }
        if st.buf.len() > hi {
            return fail("corrupt", format!("{what}: the sink holds {} bytes, more than the {hi} of this object's end", st.buf.len()));
        }
        Ok(())
    }

    /// what is left must not be taken for a complete document of something else
    fn left(&self, acked: &[MObj], when: &str) -> Res {
        let bytes = self.sink.bytes();
        if let Ok((_, got)) = parse(self.fmt, &bytes) {
            self.ctx.probe("left_complete");
            if let Some(d) = diff_all(acked, &got) {
                return fail("false document", format!("{when} the sink holds a complete document, but: {d}"));
            }
        } else {
            self.ctx.probe("left_incomplete");
        }
        let quiet = Ctx::new(crate::tape::Tape::replay(vec![]), false);
        let res = lib_read(&quiet, self.fmt, SimReader::plain(&quiet, Arc::new(bytes)), acked.len() + 50);
        if res.end == End::Clean {
            if let Some(d) = diff_all(acked, &res.got) {
                return fail("false document", format!("{when} the library reads a complete document from the sink, but: {d}"));
            }
        }
        Ok(())
    }
}

pub fn c14(ctx: &Ctx) -> Res {
    ctx.no_huge();
    let fmt = if ctx.chance(1, 2) { Fmt::Osc } else { Fmt::Xml };
    let objs = workload(ctx, 10);
    let header = if fmt == Fmt::Xml && ctx.chance(1, 4) { Some(("license".to_string(), mk::text(ctx, Chars::Xml))) } else { None };
    let built: Vec<StringOSMObj> = objs.iter().map(build).collect();
    let twin = match fmt {
        Fmt::Xml => twin::<XMLWriter<_>>(ctx, fmt, &header, &built)?,
        Fmt::Osc => twin::<OSCWriter<_>>(ctx, fmt, &header, &built)?,
    };
    let sink = SimWriter::planned(ctx);
    let total = twin.bytes.len();
    let mut plan = Vec::new();
    for _ in 0..ctx.weighted(&[1, 6, 2]) {
        // anywhere, or next to where a call ends
        let at = if twin.after.is_empty() || ctx.chance(1, 3) { ctx.us(total + 1) } else { (*ctx.pick(&twin.after) + ctx.us(12)).saturating_sub(ctx.us(12)).min(total) };
        let kind = if ctx.chance(1, 6) { WFaultKind::Zero } else { WFaultKind::Err(if ctx.chance(1, 2) { *ctx.pick(&[10usize, 2, 0, 4]) } else { ctx.us(ERR_KINDS.len()) }) };
        plan.push(WFault { at, kind, sticky: !ctx.chance(1, 2) });
    }
    plan.sort_by_key(|f| f.at);
    let flush = if ctx.chance(1, 4) { Some((0u64, ctx.us(ERR_KINDS.len()), ctx.chance(1, 2))) } else { None };
    ctx.summary(|| format!("{fmt:?} {} objects, document of {total} bytes, faults {plan:?}, flush fault {flush:?}", objs.len()));
    {
        let mut st = sink.lock();
        st.faults = plan;
        st.flush_fault = flush;
    }
    let f = Failing {
        ctx,
        fmt,
        sink: sink.clone(),
        buffered: ctx.chance(1, 4),
        header,
        objs: &objs,
        built,
        twin,
        after: *ctx.pick(&[After::Stop, After::GoOn, After::Retry]),
        close: !ctx.chance(1, 3),
        unwind: ctx.chance(1, 3),
    };
    let cap = *ctx.pick(&[8192usize, 100, 1000, 10]);
    if f.header.is_none() && ctx.chance(1, 6) {
        return match (fmt, f.buffered) {
            (Fmt::Xml, false) => f.run_from_iter::<_, XMLWriter<_>>(sink),
            (Fmt::Osc, false) => f.run_from_iter::<_, OSCWriter<_>>(sink),
            (Fmt::Xml, true) => f.run_from_iter::<_, XMLWriter<_>>(BufWriter::with_capacity(cap, sink)),
            (Fmt::Osc, true) => f.run_from_iter::<_, OSCWriter<_>>(BufWriter::with_capacity(cap, sink)),
        };
    }
    match (fmt, f.buffered) {
        (Fmt::Xml, false) => f.run::<_, XMLWriter<_>>(sink),
        (Fmt::Osc, false) => f.run::<_, OSCWriter<_>>(sink),
        (Fmt::Xml, true) => f.run::<_, XMLWriter<_>>(BufWriter::with_capacity(cap, sink)),
        (Fmt::Osc, true) => f.run::<_, OSCWriter<_>>(BufWriter::with_capacity(cap, sink)),
    }
}

// ---- C15

#[derive(Debug, Clone)]
enum Op {
    Header(String, String),
    Write(usize),
    Close,
    IsOpen,
}

/// the text XMLWriter repeats when it is closed again or dropped after being closed
const K1: &[u8] = b"\n</osm>";

struct Life<'a> {
    ctx: &'a Ctx,
    fmt: Fmt,
    sink: SimWriter,
    ops: Vec<Op>,
    objs: &'a [MObj],
}

impl Life<'_> {
    /// what comes after the complete document
    fn tail(&self, doc: &[u8], closes: usize, what: &str) -> Res {
        let b = self.sink.bytes();
        if b == doc {
            return Ok(());
        }
        if self.fmt == Fmt::Xml && b.starts_with(doc) {
            let mut t = &b[doc.len()..];
            let mut n = 0;
            while let Some(r) = t.strip_prefix(K1) {
                t = r;
                n += 1;
            }
            if t.is_empty() && n <= closes {
                if self.ctx.known("K1") {
                    self.ctx.probe("known_second_end_tag");
                    return Ok(());
                }
            }
        }
        fail("second end", format!("{what}: the document was complete, but now the sink holds {:?}", shorten(&b)))
    }

    fn run<W: Write, T: OSMWriter<W>>(&self, w: W) -> Res {
        let ctx = self.ctx;
        let mut t = lib!("new", T::new(w));
        let mut headers: Headers = Vec::new();
        let mut written: Vec<MObj> = Vec::new();
        let mut started = false;
        let mut close_failed = false;
        let mut doc: Option<Vec<u8>> = None;
        let mut ends = 0;
        for op in &self.ops {
            ctx.log(|| format!("{op:?}"));
            let open = doc.is_none();
            match op {
                Op::IsOpen => {}
                Op::Header(k, v) => {
                    if close_failed && open {
                        continue;
                    }
                    let before = self.sink.bytes();
                    let r = lib!("set_header", t.set_header((k, v)));
                    let should = match (self.fmt, started, open) {
                        (Fmt::Xml, false, true) => r.is_ok(),
                        (Fmt::Xml, true, true) => matches!(r, Err(OSMWriteError::AlreadyStarted)),
                        (Fmt::Xml, _, false) => matches!(r, Err(OSMWriteError::AlreadyStarted | OSMWriteError::AlreadyClosed)),
                        (Fmt::Osc, _, true) => matches!(r, Err(OSMWriteError::FormatDoesntSupportHeaders)),
                        (Fmt::Osc, _, false) => r.is_err(),
                    };
                    if !should {
                        return fail("header", format!("set_header on a{} {} {:?} writer gives {r:?}", if started { " started" } else { " fresh" }, if open { "open" } else { "closed" }, self.fmt));
                    }
                    if r.is_ok() {
                        headers.push((k.clone(), v.clone()));
                    } else {
                        ctx.probe("header_refused");
                        if self.sink.bytes() != before {
                            return fail("trace", "a refused header leaves a trace in the sink");
                        }
                    }
                }
                Op::Write(i) => {
                    if close_failed && open {
                        continue;
                    }
                    let before = self.sink.bytes();
                    let r = lib!("write_obj", t.write_obj(&build(&self.objs[*i])));
                    match (open, r) {
                        (true, Ok(())) => {
                            started = true;
                            written.push(self.objs[*i].clone());
                        }
                        (true, Err(e)) => return fail("error", format!("write_obj on an open writer: {e}")),
                        (false, Err(OSMWriteError::AlreadyClosed)) => {
                            ctx.probe("write_refused");
                            if self.sink.bytes() != before {
                                return fail("trace", "a refused object leaves a trace in the sink");
                            }
                        }
                        (false, r) => return fail("life cycle", format!("write_obj on a closed writer gives {r:?}")),
                    }
                }
                Op::Close => {
                    let before = self.sink.fired();
                    let r = lib!("close", t.close());
                    let hit = self.sink.fired() > before;
                    match (open, r) {
                        (true, Ok(())) if !hit => {
                            let b = self.sink.bytes();
                            judge_doc(ctx, self.fmt, &b, &effective(&headers), &written)?;
                            doc = Some(b);
                        }
                        (true, Ok(())) => return fail("swallowed", "close returns Ok although the flush failed"),
                        (true, Err(_)) if hit => {
                            close_failed = true;
                            ctx.probe("close_failed_then_again");
                        }
                        (true, Err(e)) => return fail("error", format!("close of an open writer: {e}")),
                        (false, Ok(()) | Err(OSMWriteError::AlreadyClosed)) => {
                            ends += 1;
                            ctx.probe("closed_again");
                            self.tail(doc.as_ref().unwrap(), ends, "closing again")?;
                        }
                        (false, Err(e)) => return fail("error", format!("closing again: {e}")),
                    }
                }
            }
            let is = lib!("is_open", t.is_open());
            if is != doc.is_none() {
                return fail("life cycle", format!("is_open is {is} after {op:?}, close has{} succeeded", if doc.is_none() { " not" } else { "" }));
            }
        }
        lib!("drop", drop(t));
        match &doc {
            Some(d) => self.tail(d, ends + 1, "dropping the closed writer"),
            None => {
                ctx.probe("dropped_unclosed");
                judge_doc(ctx, self.fmt, &self.sink.bytes(), &effective(&headers), &written)
            }
        }
    }
}

pub fn c15(ctx: &Ctx) -> Res {
    let fmt = if ctx.chance(1, 2) { Fmt::Osc } else { Fmt::Xml };
    let objs = workload(ctx, 6);
    let n = ctx.range(0, 14);
    let mut ops = Vec::new();
    let mut p = 0;
    for _ in 0..n {
        ops.push(match ctx.weighted(&[5, 3, 3, 1]) {
            0 if !objs.is_empty() => {
                p += 1;
                Op::Write((p - 1) % objs.len())
            }
            1 => {
                let (k, v) = header(ctx);
                Op::Header(k, v)
            }
            2 => Op::Close,
            _ => Op::IsOpen,
        });
    }
    let sink = SimWriter::planned(ctx);
    if ctx.chance(1, 4) {
        sink.lock().flush_fault = Some((0, ctx.us(ERR_KINDS.len()), false));
    }
    ctx.summary(|| format!("{fmt:?} {ops:?}"));
    let l = Life { ctx, fmt, sink: sink.clone(), ops, objs: &objs };
    let buffered = ctx.chance(1, 5);
    match (fmt, buffered) {
        (Fmt::Xml, false) => l.run::<_, XMLWriter<_>>(sink),
        (Fmt::Osc, false) => l.run::<_, OSCWriter<_>>(sink),
        (Fmt::Xml, true) => l.buffered::<XMLWriter<_>>(sink),
        (Fmt::Osc, true) => l.buffered::<OSCWriter<_>>(sink),
    }
}

impl Life<'_> {
    /// through a buffer: what was written is seen only after close
    fn buffered<T: OSMWriter<BufWriter<SimWriter>>>(&self, sink: SimWriter) -> Res {
        self.run::<_, T>(BufWriter::with_capacity(1 << 20, sink))
    }
}
