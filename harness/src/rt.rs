//! Calling the library under test: panics are caught and kept apart from the simulator's own stops.
use crate::ctx::{Ctx, Res, Violation, fail};
use crate::io::{SimReader, SimStop};
use crate::model::{self, Kind, MObj, diff_all, diff_prefix};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Panic(String),
    Stall,
    Spin,
}

impl Stop {
    pub fn text(&self) -> String {
        match self {
            Stop::Panic(m) => format!("panic {m:?}"),
            Stop::Stall => "asked its source for bytes which had not arrived".into(),
            Stop::Spin => "reads on and on without progress".into(),
        }
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Stop> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<SimStop>() {
            match s {
                SimStop::Stall => Stop::Stall,
                SimStop::Spin => Stop::Spin,
            }
        } else if let Some(s) = p.downcast_ref::<String>() {
            Stop::Panic(s.clone())
        } else if let Some(s) = p.downcast_ref::<&str>() {
            Stop::Panic(s.to_string())
        } else {
            Stop::Panic("?".into())
        }
    })
}

/// a stop which must not have happened
pub fn bad<T>(s: &Stop, what: &str) -> Result<T, Violation> {
    match s {
        Stop::Panic(m) => fail("panic", format!("{what}: panic: {m}")),
        Stop::Stall => fail("stall", format!("{what}: {}", s.text())),
        Stop::Spin => fail("hang", format!("{what}: {}", s.text())),
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Clean,
    Stopped(Stop),
    /// the accessors of an object contradict each other
    Incoherent(String),
    /// Some after None
    Revived,
    TooMany,
}

pub struct Drained<T = MObj> {
    pub got: Vec<T>,
    pub end: End,
}

/// Takes everything out of a reader. After a clean end it is asked again: it must stay at the end.
pub fn drain<O, T>(ctx: &Ctx, max: usize, mut next: impl FnMut() -> Option<O>, conv: impl Fn(&O) -> Result<T, String>) -> Drained<T> {
    let mut got = Vec::new();
    loop {
        match guard(&mut next) {
            Err(s) => {
                ctx.log(|| format!("reader stops: {}", s.text()));
                return Drained { got, end: End::Stopped(s) };
            }
            Ok(None) => {
                ctx.log(|| "reader reports the end".to_string());
                for _ in 0..2 {
                    match guard(&mut next) {
                        Err(s) => return Drained { got, end: End::Stopped(s) },
                        Ok(None) => {}
                        Ok(Some(_)) => return Drained { got, end: End::Revived },
                    }
                }
                return Drained { got, end: End::Clean };
            }
            Ok(Some(o)) => match conv(&o) {
                Err(e) => return Drained { got, end: End::Incoherent(e) },
                Ok(m) => {
                    got.push(m);
                    let n = got.len();
                    ctx.log(|| format!("object {} delivered", n - 1));
                    if got.len() > max {
                        return Drained { got, end: End::TooMany };
                    }
                }
            },
        }
    }
}

impl Drained<MObj> {
    /// everything, in order, and a clean end
    pub fn must_be_all(&self, want: &[MObj]) -> Res {
        if let Some(d) = diff_prefix(want, &self.got) {
            return fail("wrong object", d);
        }
        self.must_end_clean()?;
        if let Some(d) = diff_all(want, &self.got) {
            return fail("lost object", d);
        }
        Ok(())
    }
    pub fn must_end_clean(&self) -> Res {
        match &self.end {
            End::Clean => Ok(()),
            End::Stopped(s) => bad(s, &format!("after {} objects", self.got.len())),
            End::Incoherent(m) => fail("wrong object", m.clone()),
            End::Revived => fail("revived", format!("the reader yields an object after it reported the end ({} objects)", self.got.len())),
            End::TooMany => fail("wrong object", "far too many objects"),
        }
    }
    pub fn loud(&self) -> bool {
        matches!(self.end, End::Stopped(Stop::Panic(_)))
    }
    /// exactly the first n, then loud
    pub fn must_fail_after(&self, want: &[MObj], n: usize) -> Res {
        self.must_fail_within(want, n, n)
    }
    /// between lo and hi of the objects, all correct, then loud
    pub fn must_fail_within(&self, want: &[MObj], lo: usize, hi: usize) -> Res {
        if let Some(d) = diff_prefix(want, &self.got) {
            return fail("wrong object", d);
        }
        match &self.end {
            End::Stopped(Stop::Panic(_)) => {}
            End::Clean => return fail("silent", format!("the reader reports a clean end after {} of {} objects", self.got.len(), want.len())),
            End::Stopped(s) => return bad(s, &format!("after {} objects", self.got.len())),
            End::Incoherent(m) => return fail("wrong object", m.clone()),
            End::Revived => return fail("revived", "the reader yields an object after it reported the end"),
            End::TooMany => return fail("wrong object", "far too many objects"),
        }
        if self.got.len() < lo {
            return fail("lost object", format!("only {} objects before the failure, there are {lo} complete ones", self.got.len()));
        }
        if self.got.len() > hi {
            return fail("wrong object", format!("{} objects before the failure, there are only {hi}", self.got.len()));
        }
        Ok(())
    }
}

/// How the bytes get to the library
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Via {
    Direct,
    Buffered(usize),
    Boxed,
    Named,
}

impl Via {
    pub fn draw(ctx: &Ctx) -> Via {
        let v = match ctx.weighted(&[5, 2, 1, 2]) {
            0 => Via::Direct,
            1 => Via::Buffered(*ctx.pick(&[1usize, 7, 100, 8192])),
            2 => Via::Boxed,
            _ => Via::Named,
        };
        ctx.summary(|| format!("via {v:?}"));
        v
    }
}

pub type Next<O> = Box<dyn FnMut() -> Option<O>>;

macro_rules! opener {
    ($name:ident, $reader:path, $obj:ty, $named:expr) => {
        pub fn $name(rd: &SimReader, via: Via, iter: bool) -> Result<Next<$obj>, String> {
            use osmio::OSMReader;
            macro_rules! go {
                ($r:expr) => {{
                    let mut r = $r;
                    if iter { Box::new(move || r.objects().next()) as Next<$obj> } else { Box::new(move || r.next()) as Next<$obj> }
                }};
            }
            Ok(match via {
                Via::Direct => go!(<$reader>::new(rd.clone())),
                Via::Buffered(n) => go!(<$reader>::new(std::io::BufReader::with_capacity(n, rd.clone()))),
                Via::Boxed => go!(<$reader>::new(Box::new(rd.clone()) as Box<dyn std::io::Read>)),
                Via::Named => {
                    let open: fn(&SimReader) -> _ = $named;
                    match open(rd) {
                        Ok(r) => go!(r),
                        Err(e) => return Err(format!("opening the file fails: {e}")),
                    }
                }
            })
        }
    };
}

use osmio::arcpbf::PBFReader as ArcReader;
use osmio::obj_types::{ArcOSMObj, StringOSMObj};
use osmio::osc::OSCReader;
use osmio::pbf::PBFReader as StringReader;
use osmio::xml::XMLReader;

opener!(open_string, StringReader<_>, StringOSMObj, |rd| osmio::read_pbf(crate::simfs::add(rd, ".osm.pbf")));
opener!(open_arc, ArcReader<_>, ArcOSMObj, |rd| ArcReader::from_filename(crate::simfs::add(rd, ".osm.pbf")));
opener!(open_xml, XMLReader<_>, StringOSMObj, |rd| osmio::xml::from_filename_uncompressed(crate::simfs::add(rd, ".osm")));
opener!(open_osc, OSCReader<_>, StringOSMObj, |rd| std::fs::File::open(crate::simfs::add(rd, ".osc")).map(OSCReader::new));

macro_rules! typed_opener {
    ($name:ident, $reader:path, $named:expr) => {
        /// only the objects of one type
        pub fn $name(rd: &SimReader, via: Via, kind: Kind) -> Result<Next<Result<MObj, String>>, String> {
            use osmio::OSMReader;
            macro_rules! go {
                ($r:expr) => {{
                    let mut r = $r;
                    match kind {
                        Kind::Node => Box::new(move || r.nodes().next().map(|o| model::from_node(&o))) as Next<Result<MObj, String>>,
                        Kind::Way => Box::new(move || r.ways().next().map(|o| model::from_way(&o))),
                        Kind::Rel => Box::new(move || r.relations().next().map(|o| model::from_rel(&o))),
                    }
                }};
            }
            Ok(match via {
                Via::Direct => go!(<$reader>::new(rd.clone())),
                Via::Buffered(n) => go!(<$reader>::new(std::io::BufReader::with_capacity(n, rd.clone()))),
                Via::Boxed => go!(<$reader>::new(Box::new(rd.clone()) as Box<dyn std::io::Read>)),
                Via::Named => {
                    let open: fn(&SimReader) -> _ = $named;
                    match open(rd) {
                        Ok(r) => go!(r),
                        Err(e) => return Err(format!("opening the file fails: {e}")),
                    }
                }
            })
        }
    };
}

typed_opener!(typed_string, StringReader<_>, |rd| osmio::read_pbf(crate::simfs::add(rd, ".osm.pbf")));
typed_opener!(typed_arc, ArcReader<_>, |rd| ArcReader::from_filename(crate::simfs::add(rd, ".osm.pbf")));
typed_opener!(typed_xml, XMLReader<_>, |rd| osmio::xml::from_filename_uncompressed(crate::simfs::add(rd, ".osm")));
typed_opener!(typed_osc, OSCReader<_>, |rd| std::fs::File::open(crate::simfs::add(rd, ".osc")).map(OSCReader::new));

/// XML inside bzip2
pub fn open_xml_bz2(rd: &SimReader, via: Via) -> Result<Next<StringOSMObj>, String> {
    use osmio::OSMReader;
    Ok(match via {
        Via::Named => match osmio::read_xml(crate::simfs::add(rd, ".osm.bz2")) {
            Ok(mut r) => Box::new(move || r.next()),
            Err(e) => return Err(format!("opening the file fails: {e}")),
        },
        _ => {
            let mut r = XMLReader::new(bzip2::read::MultiBzDecoder::new(rd.clone()));
            Box::new(move || r.next())
        }
    })
}

pub fn open_osc_bz2(rd: &SimReader) -> Result<Next<StringOSMObj>, String> {
    use osmio::OSMReader;
    let mut r = OSCReader::new(bzip2::read::MultiBzDecoder::new(rd.clone()));
    Ok(Box::new(move || r.next()))
}

pub type NodePos = (i64, (i32, i32));

pub fn open_nodepos(rd: &SimReader, via: Via) -> Result<Next<NodePos>, String> {
    use osmio::stringpbf::PBFNodePositionReader as R;
    macro_rules! go {
        ($r:expr) => {{
            let mut r = $r;
            Box::new(move || r.next().map(|(i, (a, b))| (i, (a.inner(), b.inner())))) as Next<NodePos>
        }};
    }
    Ok(match via {
        Via::Direct => go!(R::from_reader(rd.clone())),
        Via::Buffered(n) => go!(R::from_reader(std::io::BufReader::with_capacity(n, rd.clone()))),
        Via::Boxed => go!(R::from_reader(Box::new(rd.clone()) as Box<dyn std::io::Read>)),
        Via::Named => match R::from_filename(crate::simfs::add(rd, ".osm.pbf")) {
            Ok(r) => go!(r),
            Err(e) => return Err(format!("opening the file fails: {e}")),
        },
    })
}

/// A watchdog that counts how long it was looked at. Time in which this process did not run at all (the machine
/// was suspended, the process was stopped) is no evidence that anything hangs, so a long gap between two looks
/// counts as one second.
pub struct Patience {
    last: Instant,
    spent: Duration,
}

impl Patience {
    pub fn start() -> Patience {
        Patience { last: Instant::now(), spent: Duration::ZERO }
    }
    pub fn spent(&mut self) -> Duration {
        let now = Instant::now();
        self.spent += (now - self.last).min(Duration::from_secs(1));
        self.last = now;
        self.spent
    }
}
