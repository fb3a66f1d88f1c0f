use crate::ctx::{Ctx, Res, Violation, fail};
use crate::doc::{self, CDoc, MChangeset};
use crate::io::{ERR_KINDS, SimReader};
use crate::model::{Ts, ts_eq, ts_of};
use crate::rt::*;
use osmio::changesets::{Changeset, ChangesetReader, ChangesetTagReader};
use std::collections::BTreeMap;
use std::io::Read;
use std::sync::Arc;

/// None if the changeset is as the dump says
pub fn cdiff(want: &MChangeset, got: &Changeset) -> Option<String> {
    let who = format!("changeset {}", want.id);
    macro_rules! cmp {
        ($f:expr, $w:expr, $g:expr) => {
            if $w != $g {
                return Some(format!("{who}: {} should be {:?} but is {:?}", $f, $w, $g));
            }
        };
    }
    cmp!("id", want.id, got.id);
    let time = |f: &str, w: Option<&String>, g: Option<Ts>| -> Option<String> {
        match (w, g) {
            (None, None) => None,
            (Some(w), Some(g)) if ts_eq(&Ts::Iso(w.clone()), &g) => None,
            (w, g) => Some(format!("{who}: {f} should be {w:?} but is {g:?}")),
        }
    };
    if let Some(d) = time("created", Some(&want.created), ts_of(&Some(got.created.clone()))) {
        return Some(d);
    }
    if let Some(d) = time("closed", want.closed.as_ref(), ts_of(&got.closed)) {
        return Some(d);
    }
    cmp!("open", want.open, got.open);
    cmp!("uid", want.uid, got.uid);
    cmp!("user", want.user, got.user);
    cmp!("num_changes", want.num_changes, got.num_changes);
    cmp!("comments_count", want.comments, got.comments_count);
    let w: BTreeMap<&str, &str> = want.tags.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let g: BTreeMap<&str, &str> = got.tags.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    cmp!("tags", w, g);
    let odd = got.num_tags() != w.len() || got.tagged() == w.is_empty() || got.untagged() != w.is_empty();
    if odd || w.iter().any(|(k, v)| got.tag(k) != Some(*v) || !got.has_tag(k)) || got.has_tag("no such key \u{1F5FF}") {
        return Some(format!("{who}: the accessors disagree with tags {w:?}"));
    }
    None
}

enum CEnd {
    Clean,
    Err(String),
    Stopped(Stop),
    Revived,
    TooMany,
}

struct Got<T> {
    got: Vec<T>,
    end: CEnd,
}

type Item<T> = Option<anyhow::Result<T>>;
type CNext<T> = Box<dyn FnMut() -> Item<T>>;

fn cdrain<T>(ctx: &Ctx, max: usize, next: Result<Result<CNext<T>, String>, Stop>) -> Got<T> {
    let mut got = Vec::new();
    let mut next = match next {
        Err(s) => return Got { got, end: CEnd::Stopped(s) },
        Ok(Err(e)) => return Got { got, end: CEnd::Err(e) },
        Ok(Ok(n)) => n,
    };
    loop {
        match guard(&mut next) {
            Err(s) => {
                ctx.log(|| format!("reader stops: {}", s.text()));
                return Got { got, end: CEnd::Stopped(s) };
            }
            Ok(Some(Err(e))) => {
                ctx.log(|| format!("reader reports error {e}"));
                return Got { got, end: CEnd::Err(e.to_string()) };
            }
            Ok(None) => {
                ctx.log(|| "reader reports the end".to_string());
                for _ in 0..2 {
                    match guard(&mut next) {
                        Err(s) => return Got { got, end: CEnd::Stopped(s) },
                        Ok(None) => {}
                        Ok(Some(_)) => return Got { got, end: CEnd::Revived },
                    }
                }
                return Got { got, end: CEnd::Clean };
            }
            Ok(Some(Ok(c))) => {
                got.push(c);
                let n = got.len();
                ctx.log(|| format!("changeset {} delivered", n - 1));
                if n > max {
                    return Got { got, end: CEnd::TooMany };
                }
            }
        }
    }
}

impl<T> Got<T> {
    fn must_end_clean(&self) -> Res {
        match &self.end {
            CEnd::Clean => Ok(()),
            CEnd::Err(e) => fail("error", format!("after {} changesets: error {e}", self.got.len())),
            _ => self.must_be_sane(),
        }
    }
    /// neither panic nor hang
    fn must_be_sane(&self) -> Res {
        match &self.end {
            CEnd::Clean | CEnd::Err(_) => Ok(()),
            CEnd::Stopped(s) => bad(s, &format!("after {} changesets", self.got.len())),
            CEnd::Revived => fail("revived", "the reader yields something after it reported the end"),
            CEnd::TooMany => fail("wrong object", "far too many changesets"),
        }
    }
    fn must_end_in_error(&self, of: usize) -> Res {
        match &self.end {
            CEnd::Clean => fail("silent", format!("the reader reports a clean end after {} of {of} changesets", self.got.len())),
            _ => self.must_be_sane(),
        }
    }
}

/// how many dump entries these results account for, all being right
pub(super) trait Judge: Sized {
    fn follow(want: &[MChangeset], got: &[Self]) -> Result<usize, String>;
    /// entries which may be missing
    fn optional(c: &MChangeset) -> bool;
}

impl Judge for Changeset {
    fn follow(want: &[MChangeset], got: &[Changeset]) -> Result<usize, String> {
        for (i, g) in got.iter().enumerate() {
            match want.get(i) {
                None => return Err(format!("item {i} (changeset {}) is one too many", g.id)),
                Some(w) => {
                    if let Some(d) = cdiff(w, g) {
                        return Err(format!("item {i}: {d}"));
                    }
                }
            }
        }
        Ok(got.len())
    }
    fn optional(_: &MChangeset) -> bool {
        false
    }
}

pub(super) type Tagged = (u64, Vec<(String, String)>);

impl Judge for Tagged {
    fn follow(want: &[MChangeset], got: &[Tagged]) -> Result<usize, String> {
        let mut p = 0;
        for (i, (id, tags)) in got.iter().enumerate() {
            while p < want.len() && Self::optional(&want[p]) && want[p].id as u64 != *id {
                p += 1;
            }
            match want.get(p) {
                None => return Err(format!("item {i} (changeset {id}) is one too many")),
                Some(w) if w.id as u64 != *id => return Err(format!("item {i} should be changeset {} but is {id}", w.id)),
                Some(w) if w.tags != *tags => return Err(format!("changeset {id}: tags should be {:?} but are {tags:?}", w.tags)),
                Some(_) => p += 1,
            }
        }
        Ok(p)
    }
    fn optional(c: &MChangeset) -> bool {
        c.tags.is_empty()
    }
}

/// reads one entry at a time: Ok(true) once it has come to the right end
pub(super) fn handed<T: Judge>(mut next: impl FnMut() -> Option<anyhow::Result<T>> + 'static, want: Vec<MChangeset>) -> Box<dyn FnMut() -> Result<bool, Violation>>
where
    T: 'static,
{
    let mut at = 0;
    Box::new(move || match guard(&mut next) {
        Err(s) => bad(&s, "changesets").map(|_: ()| true),
        Ok(None) => match want[at..].iter().find(|c| !T::optional(c)) {
            None => Ok(true),
            Some(c) => fail("lost object", format!("end before changeset {}", c.id)),
        },
        Ok(Some(Err(e))) => fail("error", format!("changeset at {at}: {e}")),
        Ok(Some(Ok(c))) => match T::follow(&want[at..], &[c]) {
            Err(e) => fail("wrong object", e),
            Ok(n) => {
                at += n;
                Ok(false)
            }
        },
    })
}

/// everything, and a clean end
fn must_be_all<T: Judge>(g: &Got<T>, want: &[MChangeset]) -> Res {
    match T::follow(want, &g.got) {
        Err(e) => fail("wrong object", e),
        Ok(p) => {
            g.must_end_clean()?;
            all_there::<T>(want, p)
        }
    }
}

fn all_there<T: Judge>(want: &[MChangeset], p: usize) -> Res {
    match want[p..].iter().find(|c| !T::optional(c)) {
        Some(c) => fail("lost object", format!("changeset {} is missing ({p} of {} were delivered)", c.id, want.len())),
        None => Ok(()),
    }
}

fn cs_next<R: Read + 'static>(mut r: ChangesetReader<R>, iter: bool) -> CNext<Changeset> {
    if iter { Box::new(move || r.next()) } else { Box::new(move || r.next_changeset().transpose()) }
}

fn open_plain(ctx: &Ctx, rd: &SimReader) -> CNext<Changeset> {
    let iter = ctx.chance(1, 2);
    let via = Via::draw(ctx);
    match via {
        Via::Direct => cs_next(ChangesetReader::new(rd.clone()), iter),
        Via::Buffered(n) => cs_next(ChangesetReader::new(std::io::BufReader::with_capacity(n, rd.clone())), iter),
        Via::Boxed => cs_next(ChangesetReader::from_reader(Box::new(rd.clone()) as Box<dyn Read>), iter),
        Via::Named => match std::fs::File::open(crate::simfs::add(rd, ".osm")) {
            Ok(f) => cs_next(ChangesetReader::from_reader(f), iter),
            Err(e) => Box::new(move || Some(Err(anyhow::anyhow!("opening fails: {e}")))),
        },
    }
}

fn open_bz2(ctx: &Ctx, rd: &SimReader) -> Result<CNext<Changeset>, String> {
    let iter = ctx.chance(1, 2);
    Ok(if ctx.chance(1, 2) {
        cs_next(ChangesetReader::from_bz2_reader(rd.clone()), iter)
    } else {
        ctx.summary(|| "by file name".into());
        cs_next(ChangesetReader::from_filename(&crate::simfs::add(rd, ".osm.bz2")).map_err(|e| format!("opening the file fails: {e}"))?, iter)
    })
}

pub(super) fn open_tags(rd: &SimReader) -> Result<CNext<Tagged>, String> {
    let mut r = ChangesetTagReader::from_filename(&crate::simfs::add(rd, ".osm.bz2")).map_err(|e| format!("opening the file fails: {e}"))?;
    Ok(Box::new(move || r.next()))
}

pub fn c16(ctx: &Ctx) -> Res {
    let d = doc::changesets(ctx, 40);
    let max = d.cs.len() + 20;
    let g = if ctx.chance(1, 2) {
        let rd = SimReader::planned(ctx, Arc::new(doc::bz2(ctx, &d.bytes).0));
        cdrain(ctx, max, guard(|| open_bz2(ctx, &rd)))
    } else {
        let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
        cdrain(ctx, max, guard(|| Ok(open_plain(ctx, &rd))))
    };
    must_be_all(&g, &d.cs)
}

fn complete(d: &CDoc, at: usize) -> usize {
    d.spans.iter().filter(|s| s.1 <= at).count()
}

fn inside(d: &CDoc, at: usize) -> bool {
    d.spans.iter().any(|s| s.0 < at && at < s.1)
}

/// the data ends at byte `at` of the document, without any other sign of a problem
fn judge_cut<T: Judge>(ctx: &Ctx, d: &CDoc, g: &Got<T>, at: usize) -> Res {
    let n = complete(d, at);
    let p = match T::follow(&d.cs[..n], &g.got) {
        Err(e) => return fail("wrong object", format!("cut at byte {at}: {e}")),
        Ok(p) => p,
    };
    if inside(d, at) {
        ctx.probe("cut_inside_changeset");
        g.must_end_in_error(d.cs.len())
    } else {
        ctx.probe("cut_between_changesets");
        g.must_be_sane()?;
        all_there::<T>(&d.cs[..n], p)
    }
}

/// the source fails once `at` bytes of the document are through
fn judge_error<T: Judge>(d: &CDoc, g: &Got<T>, at: usize) -> Res {
    let n = complete(d, at);
    let p = match T::follow(&d.cs[..n], &g.got) {
        Err(e) => return fail("wrong object", format!("error at byte {at}: {e}")),
        Ok(p) => p,
    };
    if at >= d.root_end {
        // the document is complete: it may be left at that
        g.must_be_sane()?;
        if matches!(g.end, CEnd::Clean) {
            return all_there::<T>(&d.cs, p);
        }
        return Ok(());
    }
    g.must_end_in_error(d.cs.len())
}

fn place(ctx: &Ctx, d: &CDoc) -> usize {
    let end = d.bytes.len();
    if d.spans.is_empty() || ctx.chance(1, 4) {
        return ctx.us(end + 1);
    }
    let s = d.spans[ctx.us(d.spans.len())];
    let at = match ctx.us(3) {
        0 => s.0,
        1 => s.1,
        _ => s.0 + ctx.us(s.1 - s.0),
    };
    let at = match ctx.us(4) {
        0 => at.saturating_sub(1 + ctx.us(12)),
        1 => at + 1,
        _ => at,
    };
    at.min(end)
}

pub fn c17(ctx: &Ctx) -> Res {
    let d = doc::changesets(ctx, 20);
    let max = d.bytes.len() + 20;
    match ctx.weighted(&[3, 3, 4, 4, 3, 3]) {
        5 => broken_entries(ctx, d),
        0 => {
            let at = place(ctx, &d);
            let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
            rd.set_fault(at, ctx.us(ERR_KINDS.len()), !ctx.chance(1, 3));
            let g = cdrain(ctx, max, guard(|| Ok(open_plain(ctx, &rd))));
            judge_error(&d, &g, at)
        }
        1 => {
            let at = place(ctx, &d);
            let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
            rd.set_end(at);
            let g = cdrain(ctx, max, guard(|| Ok(open_plain(ctx, &rd))));
            judge_cut(ctx, &d, &g, at)
        }
        n => {
            // a document which was cut before it was compressed ends without any sign of it
            let doc_end = if n == 4 { place(ctx, &d) } else { d.bytes.len() };
            if n == 4 {
                ctx.fault("document_cut");
                ctx.summary(|| format!("document cut at {doc_end} of {}, then compressed", d.bytes.len()));
            }
            let (z, _) = doc::bz2(ctx, &d.bytes[..doc_end]);
            let (file, fault) = match (n, ctx.us(3)) {
                (4, _) => (z, None),
                (2, _) => (super::pbf::damage(ctx, &z), None),
                (_, 0) => {
                    let at = ctx.us(z.len());
                    (z, Some(at))
                }
                (_, k) => {
                    let at = if k == 1 { ctx.us(z.len()) } else { z.len() - 1 - ctx.us(z.len().min(16)) };
                    ctx.fault("source_cut");
                    ctx.summary(|| format!("bz2 cut at {at} of {}", z.len()));
                    (z[..at].to_vec(), None)
                }
            };
            // what there is to see, up to the fault
            let (have, res) = doc::most_of_bz2(&file[..fault.unwrap_or(file.len())]);
            let rd = SimReader::planned(ctx, Arc::new(file));
            if let Some(at) = fault {
                rd.set_fault(at, ctx.us(ERR_KINDS.len()), !ctx.chance(1, 3));
            }
            let verdict = match (fault, res) {
                (Some(_), _) => Verdict::Error(have.len()),
                (None, Err(_)) if d.bytes.starts_with(&have) => Verdict::Error(have.len()),
                (None, Err(_)) => Verdict::Damaged,
                (None, Ok(_)) if d.bytes.starts_with(&have) => Verdict::Cut(have.len()),
                (None, Ok(_)) => {
                    ctx.probe("undetectable_damage");
                    return Ok(());
                }
            };
            if ctx.chance(1, 2) {
                let g = cdrain(ctx, max, guard(|| open_bz2(ctx, &rd)));
                verdict.judge(ctx, &d, &g)
            } else {
                ctx.summary(|| "tag reader".into());
                let g = cdrain(ctx, max, guard(|| open_tags(&rd)));
                verdict.judge(ctx, &d, &g)
            }
        }
    }
}

/// a changeset element no reader can use; `tags`: not even one which only looks at tags
pub(super) fn unusable(ctx: &Ctx, tags: bool) -> String {
    let fine = r#"created_at="2020-01-01T00:00:00Z" open="false" num_changes="0" comments_count="0""#;
    match ctx.us(if tags { 6 } else { 11 }) {
        0 => format!("<changeset {fine}><tag k=\"a\" v=\"b\"/></changeset>"),
        1 => format!("<changeset id=\"12x\" {fine}><tag k=\"a\" v=\"b\"/></changeset>"),
        2 => format!("<changeset id=\"12\" {fine}><tag k=\"a\" v=\"b\"/><tag k=\"x\"/><tag k=\"c\" v=\"d\"/></changeset>"),
        3 => format!("<changeset id=\"12\" {fine}><tag v=\"x\"/></changeset>"),
        4 => format!("<changeset id=\"12\" {fine}><tag k=\"a\" v=\"&nosuch;\"/></changeset>"),
        5 => format!("<changeset id=\"12\" {fine}><tag k=\"a\" v=\"b\"/><tag/></changeset>"),
        6 => "<changeset id=\"12\" open=\"false\" num_changes=\"0\" comments_count=\"0\"/>".into(),
        7 => format!("<changeset id=\"12\" {}/>", fine.replace("false", "maybe")),
        8 => format!("<changeset id=\"12\" {}><tag k=\"a\" v=\"b\"/></changeset>", fine.replace("num_changes=\"0", "num_changes=\"x")),
        9 => format!("<changeset id=\"5000000000\" {fine}/>"),
        _ => format!("<changeset id=\"12\" uid=\"&nosuch;\" {fine}/>"),
    }
}

/// Some entries of the dump are unusable. Each is reported; whoever goes on after that gets all the others.
fn broken_entries(ctx: &Ctx, mut d: CDoc) -> Res {
    if d.cs.is_empty() {
        return Ok(());
    }
    let tags = ctx.chance(1, 2);
    let mut broken = vec![];
    for _ in 0..ctx.range(1, 3) {
        broken.push(ctx.us(d.cs.len()));
    }
    broken.sort();
    broken.dedup();
    for &i in broken.iter().rev() {
        let text = unusable(ctx, tags);
        d.bytes.splice(d.spans[i].0..d.spans[i].1, text.bytes());
        d.cs.remove(i);
    }
    ctx.fault("broken_entry");
    ctx.summary(|| format!("entries {broken:?} are unusable"));
    ctx.hash_bytes(&d.bytes);
    let max = 4 * (d.cs.len() + broken.len()) + 20;
    let first = broken[0];
    if tags {
        ctx.summary(|| "tag reader".into());
        let rd = SimReader::planned(ctx, Arc::new(doc::bz2(ctx, &d.bytes).0));
        go_on(max, &d.cs, first, broken.len(), guard(|| open_tags(&rd)))
    } else {
        let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
        go_on(max, &d.cs, first, broken.len(), guard(|| Ok(open_plain(ctx, &rd))))
    }
}

fn go_on<T: Judge>(max: usize, want: &[MChangeset], first: usize, broken: usize, next: Result<Result<CNext<T>, String>, Stop>) -> Res {
    let mut next = match next {
        Err(s) => return bad(&s, "opening"),
        Ok(Err(e)) => return fail("error", e),
        Ok(Ok(n)) => n,
    };
    let mut got = vec![];
    let mut errors = 0;
    loop {
        match guard(&mut next) {
            Err(s) => return bad(&s, &format!("after {} changesets and {errors} errors", got.len())),
            Ok(None) => break,
            Ok(Some(Ok(c))) => got.push(c),
            Ok(Some(Err(_))) => {
                if errors == 0 {
                    match T::follow(&want[..first], &got) {
                        Err(e) => return fail("wrong object", e),
                        Ok(p) => all_there::<T>(&want[..first], p)?,
                    }
                }
                errors += 1;
            }
        }
        if got.len() + errors > max {
            return fail("endless", format!("{} changesets and {errors} errors, and no end", got.len()));
        }
    }
    match T::follow(want, &got) {
        Err(e) => return fail("wrong object", e),
        Ok(p) => all_there::<T>(want, p)?,
    }
    if errors < broken {
        return fail("silent", format!("{errors} errors for {broken} unusable changesets"));
    }
    Ok(())
}

enum Verdict {
    Error(usize),
    Cut(usize),
    /// other data than written comes out before the damage is noticed
    Damaged,
}

impl Verdict {
    fn judge<T: Judge>(&self, ctx: &Ctx, d: &CDoc, g: &Got<T>) -> Res {
        match self {
            Verdict::Error(at) => judge_error(d, g, *at),
            Verdict::Cut(at) => judge_cut(ctx, d, g, *at),
            Verdict::Damaged => {
                ctx.probe("damage_seen_late");
                g.must_end_in_error(d.cs.len())
            }
        }
    }
}

pub fn c18(ctx: &Ctx) -> Res {
    let d = doc::changesets(ctx, 40);
    let max = d.cs.len() + 20;
    let file = Arc::new(doc::bz2(ctx, &d.bytes).0);
    let rd = SimReader::planned(ctx, file.clone());
    let g = cdrain(ctx, max, guard(|| open_tags(&rd)));
    must_be_all(&g, &d.cs)?;
    if ctx.chance(1, 3) {
        let rd = SimReader::planned(ctx, file);
        let full = cdrain(ctx, max, guard(|| open_bz2(ctx, &rd)));
        full.must_end_clean()?;
        let tagged: Vec<(u64, BTreeMap<String, String>)> = full.got.iter().filter(|c| c.tagged()).map(|c| (c.id as u64, c.tags.clone().into_iter().collect())).collect();
        let seen: Vec<(u64, BTreeMap<String, String>)> = g.got.iter().filter(|c| !c.1.is_empty()).map(|c| (c.0, c.1.iter().cloned().collect())).collect();
        if tagged != seen {
            return fail("disagree", format!("the full reader has {tagged:?}, the tag reader {seen:?}"));
        }
    }
    Ok(())
}
