//! Files by name: opening, reading and closing them, and what happens to the names meanwhile.
use super::changeset::{Judge, Tagged};
use crate::ctx::{Ctx, Res, Violation, fail};
use crate::doc::{self, Fmt, MChangeset};
use crate::io::{ERR_KINDS, SimReader};
use crate::model::{self, MObj, diff_all, diff_prefix};
use crate::pbf::{self, Opts};
use crate::rt::guard;
use crate::simfs;
use osmio::OSMReader;
use osmio::changesets::{Changeset, ChangesetReader, ChangesetTagReader};
use osmio::stringpbf::PBFNodePositionReader;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    ReadPbf,
    StringPbf,
    ArcPbf,
    NodePos,
    Xml,
    XmlBz2,
    ReadXml,
    Changesets,
    ChangesetTags,
}

#[derive(Clone, Copy, PartialEq)]
enum Family {
    Pbf,
    Xml,
    XmlBz2,
    Cs,
}

struct Content {
    bytes: Arc<Vec<u8>>,
    objs: Arc<Vec<MObj>>,
    cs: Arc<Vec<MChangeset>>,
    id: usize,
}

enum Step {
    More,
    End,
    Stopped(String),
}

type Stepper = Box<dyn FnMut() -> Result<Step, Violation>>;

/// Takes one object after the other and compares
fn stepper<O, T: 'static>(
    mut next: impl FnMut() -> Option<Result<O, String>> + 'static,
    conv: impl Fn(O) -> Result<T, String> + 'static,
    prefix: impl Fn(&[T]) -> Option<String> + 'static,
    missing: impl Fn(&[T]) -> Option<String> + 'static,
) -> Stepper {
    let mut got: Vec<T> = Vec::new();
    Box::new(move || match guard(&mut next) {
        Err(s) => Ok(Step::Stopped(s.text())),
        Ok(Some(Err(e))) => Ok(Step::Stopped(e)),
        Ok(None) => match missing(&got) {
            Some(d) => fail("lost object", d),
            None => Ok(Step::End),
        },
        Ok(Some(Ok(o))) => {
            match conv(o) {
                Err(e) => return fail("wrong object", e),
                Ok(t) => got.push(t),
            }
            match prefix(&got) {
                Some(d) => fail("wrong object", d),
                None => Ok(Step::More),
            }
        }
    })
}

fn osm<O: osmio::OSMObj>(next: impl FnMut() -> Option<O> + 'static, c: &Content) -> Stepper {
    let (a, b) = (c.objs.clone(), c.objs.clone());
    let mut next = next;
    // what has been compared need not be compared again
    stepper(
        move || next().map(Ok),
        |o| model::extract(&o),
        move |g| {
            let n = g.len() - 1;
            if n >= a.len() { Some(format!("object {n} ({}) is one too many", g[n].short())) } else { diff_prefix(&a[n..], &g[n..]) }
        },
        move |g| if g.len() == b.len() { None } else { diff_all(&b, g) },
    )
}

fn changes<T: Judge + 'static>(next: impl FnMut() -> Option<anyhow::Result<T>> + 'static, c: &Content) -> Stepper {
    let (a, b) = (c.cs.clone(), c.cs.clone());
    let mut next = next;
    stepper(
        move || next().map(|r| r.map_err(|e| e.to_string())),
        Ok,
        move |g| T::follow(&a, g).err(),
        move |g| match T::follow(&b, g) {
            Err(e) => Some(e),
            Ok(p) if b[p..].iter().all(T::optional) => None,
            Ok(p) => Some(format!("the end comes before changeset {}", b[p].id)),
        },
    )
}

fn open(how: How, form: usize, path: &Path, c: &Content) -> anyhow::Result<Stepper> {
    // every kind of argument a path can be
    macro_rules! by {
        ($f:expr) => {
            match (form, path.to_str()) {
                (0, Some(s)) => $f(s)?,
                (1, Some(s)) => $f(s.to_string())?,
                (2, _) => $f(PathBuf::from(path))?,
                (3, _) => $f(path.as_os_str())?,
                _ => $f(path)?,
            }
        };
    }
    Ok(match how {
        How::ReadPbf => {
            let mut r = by!(osmio::read_pbf);
            osm(move || r.next(), c)
        }
        How::StringPbf => {
            let mut r = by!(osmio::stringpbf::PBFReader::from_filename);
            osm(move || r.objects().next(), c)
        }
        How::ArcPbf => {
            let mut r = by!(osmio::arcpbf::PBFReader::from_filename);
            osm(move || r.next(), c)
        }
        How::NodePos => {
            let mut r = by!(PBFNodePositionReader::from_filename);
            let want: Arc<Vec<(i64, (i32, i32))>> = Arc::new(c.objs.iter().filter_map(|o| o.pos.filter(|_| o.kind == model::Kind::Node).map(|p| (o.id, p))).collect());
            let all = want.clone();
            stepper(
                move || r.next().map(Ok),
                |(i, (a, b))| Ok((i, (a.inner(), b.inner()))),
                move |g| {
                    let n = g.len() - 1;
                    if want.get(n) == Some(&g[n]) { None } else { Some(format!("position {n} should be {:?} but is {:?}", want.get(n), g[n])) }
                },
                move |g| if g.len() == all.len() { None } else { Some(format!("{} positions instead of {}", g.len(), all.len())) },
            )
        }
        How::Xml => {
            let mut r = by!(osmio::xml::from_filename_uncompressed);
            osm(move || r.next(), c)
        }
        How::XmlBz2 => {
            let mut r = by!(osmio::xml::from_filename_bz2);
            osm(move || r.next(), c)
        }
        How::ReadXml => {
            let mut r = by!(osmio::read_xml);
            osm(move || r.objects().next(), c)
        }
        How::Changesets => {
            let mut r = ChangesetReader::from_filename(path.to_str().unwrap())?;
            changes::<Changeset>(move || r.next(), c)
        }
        How::ChangesetTags => {
            let mut r = ChangesetTagReader::from_filename(path.to_str().unwrap())?;
            changes::<Tagged>(move || r.next(), c)
        }
    })
}

struct Live {
    step: Stepper,
    what: String,
    /// reading it meets an error or a premature end
    faulty: bool,
    /// the file is cut, perhaps where that cannot be seen
    cut: bool,
    over: bool,
}

impl Live {
    fn go(&mut self) -> Res {
        if self.over {
            return Ok(());
        }
        let step = match (self.step)() {
            Err(v) if self.cut && v.class == "lost object" => Step::End,
            s => s?,
        };
        match step {
            Step::More => {}
            Step::End => self.over = true,
            Step::Stopped(_) if self.faulty => self.over = true,
            Step::Stopped(e) => return fail("failure", format!("{}: reading fails without any fault: {e}", self.what)),
        }
        Ok(())
    }
}

const OPEN_ERRORS: [(i32, &str); 9] = [
    (libc::ENOENT, "ENOENT"),
    (libc::EACCES, "EACCES"),
    (libc::EMFILE, "EMFILE"),
    (libc::ENFILE, "ENFILE"),
    (libc::EIO, "EIO"),
    (libc::ELOOP, "ELOOP"),
    (libc::ENAMETOOLONG, "ENAMETOOLONG"),
    (libc::ENODEV, "ENODEV"),
    (libc::ENOMEM, "ENOMEM"),
];

const NAMES: [&[u8]; 12] = [
    b"/simfs/planet.osm.pbf",
    b"/simfs/planet.osm.bz2",
    b"/simfs/a.osm",
    b"/simfs/no extension",
    b"/simfs/x",
    "/simfs/\u{e4}\u{1F5FF}/b.osm.pbf".as_bytes(),
    b"/simfs/-",
    b"/simfs/a\nb\t.PBF",
    b"/simfs/d/../e.gz",
    b"/simfs//f",
    b"/simfs/%20~$HOME*",
    b"/simfs/\xff\xfe.osm",
];

fn descriptors(live: usize, after: &str) -> Res {
    let open = simfs::open_now();
    if open > live as i32 {
        return fail("leak", format!("after {after}: {open} descriptors are open for {live} readers"));
    }
    if simfs::writes() > 0 {
        return fail("write", format!("after {after}: a file is opened for writing"));
    }
    Ok(())
}

/// A history of opening, reading, replacing, removing and closing files by name
pub fn c26(ctx: &Ctx) -> Res {
    ctx.no_huge();
    let family = *ctx.pick(&[Family::Pbf, Family::Pbf, Family::Xml, Family::XmlBz2, Family::Cs]);
    let hows: &[How] = match family {
        Family::Pbf => &[How::ReadPbf, How::StringPbf, How::ArcPbf, How::NodePos],
        Family::Xml => &[How::Xml],
        Family::XmlBz2 => &[How::XmlBz2, How::ReadXml],
        Family::Cs => &[How::Changesets, How::ChangesetTags],
    };
    let contents: Vec<Content> = (0..ctx.range(1, 3) as usize)
        .map(|id| {
            let (bytes, objs, cs) = match family {
                Family::Pbf => {
                    let f = pbf::file(ctx, &Opts { max_blocks: 4, max_group: 8, ..Opts::default() });
                    (f.bytes, f.objs, vec![])
                }
                Family::Xml | Family::XmlBz2 => {
                    let d = doc::osm_doc(ctx, Fmt::Xml, 12);
                    (if family == Family::Xml { d.bytes } else { doc::bz2(ctx, &d.bytes).0 }, d.objs, vec![])
                }
                Family::Cs => {
                    let d = doc::changesets(ctx, 12);
                    (doc::bz2(ctx, &d.bytes).0, vec![], d.cs)
                }
            };
            ctx.hash_bytes(&bytes);
            Content { bytes: Arc::new(bytes), objs: Arc::new(objs), cs: Arc::new(cs), id }
        })
        .collect();
    // the names and what they stand for
    let mut names: Vec<(PathBuf, Option<usize>)> = (0..ctx.range(1, 3))
        .map(|_| {
            let n = *ctx.pick(&NAMES);
            let n = if family == Family::Cs && std::str::from_utf8(n).is_err() { NAMES[0] } else { n };
            (PathBuf::from(OsStr::from_bytes(n)), Some(ctx.us(contents.len())))
        })
        .collect();
    names.dedup_by(|a, b| a.0 == b.0);
    if names.len() == 3 && names[0].0 == names[2].0 {
        names.pop();
    }
    let mut live: Vec<Live> = Vec::new();
    for _ in 0..ctx.range(3, 25) {
        let what = match ctx.weighted(&[if live.len() < 4 { 5 } else { 0 }, if live.is_empty() { 0 } else { 12 }, if live.is_empty() { 0 } else { 3 }, 2, 1]) {
            0 => {
                let (path, content) = names[ctx.us(names.len())].clone();
                let how = *ctx.pick(hows);
                let form = ctx.us(5);
                let what = format!("{how:?} of {path:?}");
                let interruptions = if ctx.chance(1, 6) { ctx.range(1, 3) } else { 0 };
                let mut outcomes: Vec<Result<SimReader, i32>> = (0..interruptions).map(|_| Err(libc::EINTR)).collect();
                let mut must = None;
                let (mut faulty, mut cut) = (false, false);
                let nothing = Content { bytes: Arc::default(), objs: Arc::default(), cs: Arc::default(), id: 99 };
                let mut c = &nothing;
                if interruptions > 0 {
                    ctx.fault("interrupted_open");
                }
                if content.is_none() || ctx.chance(1, 4) {
                    let (e, name) = if content.is_none() { OPEN_ERRORS[0] } else { *ctx.pick(&OPEN_ERRORS) };
                    ctx.fault(&format!("open_{name}"));
                    outcomes.push(Err(e));
                    must = Some(e);
                } else {
                    c = &contents[content.unwrap()];
                    let rd = SimReader::planned(ctx, c.bytes.clone());
                    if ctx.chance(1, 4) {
                        faulty = true;
                        let at = ctx.us(c.bytes.len() + 1);
                        if ctx.chance(1, 2) {
                            rd.set_end(at);
                            cut = true;
                        } else {
                            rd.set_fault(at, ctx.us(ERR_KINDS.len()), true);
                        }
                    }
                    outcomes.push(Ok(rd));
                }
                simfs::plan(path.as_os_str().as_bytes(), outcomes);
                let res = guard(|| open(how, form, &path, c));
                ctx.event(26, c.id as u64, must.unwrap_or(0) as u64);
                ctx.log(|| format!("{what}: {}", match &res { Ok(Ok(_)) => "opens".into(), Ok(Err(e)) => format!("{e:?}"), Err(s) => s.text() }));
                match (res, must) {
                    (Err(s), _) => return fail("panic", format!("{what}: {}", s.text())),
                    (Ok(Err(e)), None) => return fail("failure", format!("{what} fails without any fault: {e:?}")),
                    (Ok(Ok(_)), Some(e)) => return fail("silent", format!("{what} succeeds although the file could not be opened (error {e})")),
                    (Ok(Err(e)), Some(errno)) => {
                        if !e.chain().any(|c| c.downcast_ref::<std::io::Error>().and_then(|i| i.raw_os_error()) == Some(errno)) {
                            return fail("wrong error", format!("{what}: error {errno} is reported as {e:?}"));
                        }
                    }
                    (Ok(Ok(step)), None) => live.push(Live { step, what: what.clone(), faulty, cut, over: false }),
                }
                what
            }
            1 => {
                let i = ctx.us(live.len());
                for _ in 0..ctx.range(1, 6) {
                    live[i].go()?;
                }
                ctx.objects(1);
                live[i].what.clone()
            }
            2 => {
                let l = live.remove(ctx.us(live.len()));
                ctx.probe_if(!l.over, "closed_in_the_middle");
                let what = format!("closing {}", l.what);
                if let Err(s) = guard(move || drop(l)) {
                    return fail("panic", format!("{what}: {}", s.text()));
                }
                what
            }
            3 => {
                let n = ctx.us(names.len());
                names[n].1 = Some(ctx.us(contents.len()));
                ctx.fault("file_replaced");
                ctx.log(|| format!("{:?} is now content {:?}", names[n].0, names[n].1));
                "replacing a file".into()
            }
            _ => {
                let n = ctx.us(names.len());
                names[n].1 = None;
                ctx.fault("file_removed");
                ctx.log(|| format!("{:?} is removed", names[n].0));
                "removing a file".into()
            }
        };
        descriptors(live.len(), &what)?;
    }
    // the rest
    while let Some(mut l) = live.pop() {
        for _ in 0..1_000_000 {
            if l.over {
                break;
            }
            l.go()?;
        }
        let what = format!("closing {}", l.what);
        if let Err(s) = guard(move || drop(l)) {
            return fail("panic", format!("{what}: {}", s.text()));
        }
        descriptors(live.len(), &what)?;
    }
    Ok(())
}
