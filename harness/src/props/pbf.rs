use crate::ctx::{Ctx, Res, fail};
use crate::doc::{self, Fmt};
use crate::io::{ERR_KINDS, SimReader};
use crate::model::{self, Kind, MObj, diff, extract};
use crate::pbf::{self, Comp, Opts, PbfFile};
use crate::rt::*;
use osmio::obj_types::StringOSMObj;
use osmio::prelude::*;
use std::io::Read;
use std::sync::Arc;

fn opened<T>(r: Result<T, String>) -> Result<T, crate::ctx::Violation> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => fail("open", e),
    }
}

pub fn c01(ctx: &Ctx) -> Res {
    let f = pbf::file(ctx, &Opts::default());
    let rd = SimReader::planned(ctx, Arc::new(f.bytes.clone()));
    let via = Via::draw(ctx);
    let iter = ctx.chance(1, 2);
    let next = opened(open_string(&rd, via, iter))?;
    drain(ctx, f.objs.len() + 20, next, extract).must_be_all(&f.objs)
}

pub fn c02(ctx: &Ctx) -> Res {
    let f = pbf::file(ctx, &Opts::default());
    let rd = SimReader::planned(ctx, Arc::new(f.bytes.clone()));
    let via = Via::draw(ctx);
    let iter = ctx.chance(1, 2);
    let mut next = opened(open_arc(&rd, via, iter))?;
    let edit_every = 1 + ctx.us(6);
    let mut i = 0;
    let mut problem: Res = Ok(());
    let mut effort = 0;
    let res = drain(
        ctx,
        f.objs.len() + 20,
        || {
            let o = next()?;
            let idx = i;
            i += 1;
            // the big ones not too often
            if let Some(w) = f.objs.get(idx) {
                effort += 1 + (w.tags.len() + w.nodes.len() + w.members.len()) / 100;
            }
            if effort < 1000 && idx < 200 && problem.is_ok() && f.objs.get(idx).is_some() {
                problem = arc_extras(ctx, &o, &f.objs[idx], idx % edit_every == 0);
            }
            Some(o)
        },
        extract,
    );
    res.must_be_all(&f.objs)?;
    problem
}

fn arc_extras(ctx: &Ctx, o: &osmio::obj_types::ArcOSMObj, want: &MObj, edit: bool) -> Res {
    let chk = |got: Result<MObj, String>, want: &MObj, what: &str| -> Res {
        match got {
            Err(e) => fail("wrong object", format!("{what}: {e}")),
            Ok(g) => match diff(want, &g) {
                Some(d) => fail("wrong object", format!("{what}: {d}")),
                None => Ok(()),
            },
        }
    };
    let owned: StringOSMObj = o.clone().into();
    chk(extract(&owned), want, "after conversion to the owned form")?;
    if edit {
        let before = match extract(o) {
            Ok(b) => b,
            Err(e) => return fail("wrong object", e),
        };
        let mut c = o.clone();
        let mut m = want.clone();
        for _ in 0..ctx.range(1, 4) {
            super::pipeline::edit(ctx, &mut c, &mut m, crate::generate::Chars::Any);
        }
        chk(extract(&c), &m, "edited clone")?;
        match extract(o) {
            Ok(a) if a == before => {}
            other => return fail("clone", format!("editing a clone changed the original: {before:?} became {other:?}")),
        }
        let owned: StringOSMObj = c.into();
        chk(extract(&owned), &m, "edited clone after conversion")?;
    }
    Ok(())
}

fn positions(objs: &[MObj]) -> Vec<NodePos> {
    objs.iter().filter(|o| o.kind == Kind::Node).map(|o| (o.id, o.pos.unwrap())).collect()
}

/// the node position reader's items as objects, to use the same judgements
fn as_node(p: &NodePos) -> Result<MObj, String> {
    let mut m = MObj::new(Kind::Node, p.0);
    m.pos = Some(p.1);
    Ok(m)
}
fn nodes_only(objs: &[MObj]) -> Vec<MObj> {
    positions(objs).iter().map(|p| as_node(p).unwrap()).collect()
}

pub fn c03(ctx: &Ctx) -> Res {
    let f = pbf::file(ctx, &Opts::default());
    let rd = SimReader::planned(ctx, Arc::new(f.bytes.clone()));
    let via = Via::draw(ctx);
    let next = opened(open_nodepos(&rd, via))?;
    let want = nodes_only(&f.objs);
    drain(ctx, want.len() + 20, next, as_node).must_be_all(&want)?;
    if ctx.chance(1, 4) {
        // what the full reader says about the same file
        let rd = SimReader::planned(ctx, Arc::new(f.bytes.clone()));
        let next = opened(open_string(&rd, Via::Direct, false))?;
        let full = drain(ctx, f.objs.len() + 20, next, extract);
        full.must_be_all(&f.objs)?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Which {
    Str,
    Arc,
    Pos,
    StrOnly(Kind),
    ArcOnly(Kind),
}

impl Which {
    pub fn draw(ctx: &Ctx) -> Which {
        let mut w = *ctx.pick(&[Which::Str, Which::Arc, Which::Pos]);
        if w != Which::Pos && ctx.chance(1, 4) {
            let k = crate::generate::kind(ctx);
            w = if w == Which::Str { Which::StrOnly(k) } else { Which::ArcOnly(k) };
        }
        ctx.summary(|| format!("reader {w:?}"));
        w
    }
    /// what it should yield out of these objects
    pub fn view(self, objs: &[MObj]) -> Vec<MObj> {
        match self {
            Which::Pos => nodes_only(objs),
            Which::StrOnly(k) | Which::ArcOnly(k) => objs.iter().filter(|o| o.kind == k).cloned().collect(),
            _ => objs.to_vec(),
        }
    }
    pub fn drain(self, ctx: &Ctx, rd: &SimReader, via: Via, max: usize) -> Result<Drained, crate::ctx::Violation> {
        // opening may already read: a loud failure there is one, too
        macro_rules! go {
            ($open:expr, $conv:expr) => {
                match guard(|| $open) {
                    Err(s) => Drained { got: vec![], end: End::Stopped(s) },
                    Ok(Err(e)) => Drained { got: vec![], end: End::Stopped(Stop::Panic(e)) },
                    Ok(Ok(n)) => drain(ctx, max, n, $conv),
                }
            };
        }
        Ok(match self {
            Which::Str => go!(open_string(rd, via, false), extract),
            Which::Arc => go!(open_arc(rd, via, false), extract),
            Which::Pos => go!(open_nodepos(rd, via), as_node),
            Which::StrOnly(k) => go!(typed_string(rd, via, k), |o: &Result<MObj, String>| o.clone()),
            Which::ArcOnly(k) => go!(typed_arc(rd, via, k), |o: &Result<MObj, String>| o.clone()),
        })
    }
}

/// a byte of the file, often where something begins or ends
fn place(ctx: &Ctx, f: &PbfFile) -> usize {
    let len = f.bytes.len();
    if f.blocks.is_empty() || ctx.chance(1, 3) {
        return ctx.us(len + 1);
    }
    let b = &f.blocks[ctx.us(f.blocks.len())];
    let at = match ctx.us(6) {
        0 => b.start,
        1 => b.start + 1 + ctx.us(3),
        2 => b.start + 4,
        3 => b.blob,
        4 => b.end,
        _ => b.start + ctx.us(b.end - b.start),
    };
    let at = match ctx.us(4) {
        0 => at.saturating_sub(1),
        1 => at + 1,
        _ => at,
    };
    at.min(len)
}

pub fn c04(ctx: &Ctx) -> Res {
    let f = pbf::file(ctx, &Opts { max_group: 12, ..Opts::default() });
    let which = Which::draw(ctx);
    let via = Via::draw(ctx);
    let at = place(ctx, &f);
    let rd = SimReader::planned(ctx, Arc::new(f.bytes.clone()));
    let complete = which.view(&f.objs[..f.complete_at(at)]);
    let error = ctx.chance(1, 2);
    if error {
        let kind = ctx.us(ERR_KINDS.len());
        rd.set_fault(at, kind, !ctx.chance(1, 3));
    } else {
        rd.set_end(at);
    }
    let res = which.drain(ctx, &rd, via, f.objs.len() + 20)?;
    if error || !f.boundary(at) {
        ctx.probe_if(!complete.is_empty(), "fault_after_complete_blocks");
        res.must_fail_within(&complete, 0, complete.len())
    } else {
        ctx.probe("cut_between_blocks");
        res.must_be_all(&complete)
    }
}

pub fn c05(ctx: &Ctx) -> Res {
    let o = Opts { max_group: 12, ..Opts::default() };
    let mut f = PbfFile::default();
    if !ctx.chance(1, 10) {
        let h = pbf::header_block(ctx);
        f.push_other(ctx, "OSMHeader", h);
    }
    let before = ctx.range(0, 3);
    for _ in 0..before {
        f.push_random(ctx, &o);
    }
    let good = f.objs.len();
    // the block
    let lie = if ctx.chance(1, 4) { Some(pbf::Lie::draw(ctx)) } else { None };
    let (raw, objs, lies) = pbf::lying_block(ctx, &Opts { lie, big: lie.is_none(), ..o.clone() });
    let n_in = objs.len();
    let mut broken = true;
    if let Some(l) = lie {
        broken = lies;
        if lies {
            ctx.fault("contradicting_block");
            ctx.summary(|| format!("block with {l:?}"));
        }
        f.push_data(ctx, pbf::draw_comp(ctx), raw, objs, None);
    } else if ctx.chance(1, 4) {
        let comp = *ctx.pick(&[Comp::Lzma, Comp::Bzip2, Comp::Lz4, Comp::Zstd, Comp::Nothing]);
        ctx.fault("unsupported_compression");
        ctx.summary(|| format!("block {:?}", comp));
        f.push_data(ctx, comp, raw, objs, None);
    } else {
        let level = *ctx.pick(&[6u32, 1, 9, 0]);
        let clean = pbf::zlib(&raw, level);
        let bad = damage(ctx, &clean);
        // a change that the format itself cannot notice is no damage
        let mut out = Vec::new();
        match flate2::bufread::ZlibDecoder::new(&bad[..]).read_to_end(&mut out) {
            Ok(_) if out == raw => broken = false,
            Ok(_) => {
                ctx.probe("undetectable_damage");
                return Ok(());
            }
            Err(_) => {}
        }
        f.push_data(ctx, Comp::Zlib(level), raw, objs, Some(bad));
    }
    for _ in 0..ctx.range(0, 3) {
        f.push_random(ctx, &o);
    }
    ctx.hash_bytes(&f.bytes);
    ctx.objects(f.objs.len());
    ctx.summary(|| format!("{} bytes, {} objects before the block, {n_in} in it", f.bytes.len(), good));
    let which = match lie {
        None => Which::draw(ctx),
        // a reader need not look at what it doesn't return
        Some(l) if l.positions() => *ctx.pick(&[Which::Str, Which::Arc, Which::Pos]),
        Some(_) => *ctx.pick(&[Which::Str, Which::Arc]),
    };
    let via = Via::draw(ctx);
    let rd = SimReader::planned(ctx, Arc::new(f.bytes.clone()));
    let res = which.drain(ctx, &rd, via, f.objs.len() + 20)?;
    if broken && lie.is_some_and(|l| l.readable()) && !res.loud() {
        ctx.probe("unusual_block_read");
        res.must_be_all(&which.view(&f.objs))
    } else if broken {
        ctx.probe_if(good > 0, "damage_after_good_blocks");
        let v = which.view(&f.objs[..good]);
        res.must_fail_after(&v, v.len())
    } else {
        ctx.probe("benign_damage");
        res.must_be_all(&which.view(&f.objs))
    }
}

pub fn damage(ctx: &Ctx, clean: &[u8]) -> Vec<u8> {
    let mut b = clean.to_vec();
    let len = b.len();
    if len == 0 {
        return b;
    }
    let at = match ctx.us(4) {
        0 => ctx.us(len),
        1 => ctx.us(len.min(3)),
        2 => len - 1 - ctx.us(len.min(5)),
        _ => ctx.us(len),
    };
    match ctx.us(6) {
        0 => {
            ctx.fault("bit_flip");
            b[at] ^= 1 << ctx.us(8);
        }
        1 => {
            ctx.fault("zeroed_bytes");
            let n = (1 + ctx.us(64)).min(len - at);
            b[at..at + n].fill(0);
        }
        2 => {
            ctx.fault("lost_tail");
            b.truncate(at);
        }
        3 => {
            ctx.fault("overwritten_bytes");
            let mut r = ctx.subrng();
            let n = (1 + ctx.us(64)).min(len - at);
            for x in &mut b[at..at + n] {
                *x = r.next() as u8;
            }
        }
        4 => {
            ctx.fault("lost_range");
            let n = (1 + ctx.us(16)).min(len - at);
            b.drain(at..at + n);
        }
        _ => {
            ctx.fault("repeated_range");
            let n = (1 + ctx.us(16)).min(len - at);
            let part = b[at..at + n].to_vec();
            b.splice(at..at, part);
        }
    }
    ctx.summary(|| format!("damage at payload byte {at} of {len}"));
    b
}

pub fn c06(ctx: &Ctx) -> Res {
    let f = pbf::file(ctx, &Opts { max_group: 10, ..Opts::default() });
    let rd = SimReader::planned(ctx, Arc::new(f.bytes.clone()));
    let by_ref = ctx.chance(1, 4);
    let mut i = 0; // next object
    let mut hops = 0;
    loop {
        let which = Which::draw(ctx);
        // hand over after this many blocks, or never
        let blocks = if ctx.chance(1, 5) { u64::MAX } else { ctx.range(1, 2) };
        macro_rules! go {
            ($src:expr, $reader:path, $kind:expr) => {
                match $kind {
                    None => leg(ctx, &f, &rd, <$reader>::new($src), &mut i, blocks, None, |r| r.next().map(|o| extract(&o)))?,
                    Some(Kind::Node) => leg(ctx, &f, &rd, <$reader>::new($src), &mut i, blocks, $kind, |r| r.nodes().next().map(|o| model::from_node(&o)))?,
                    Some(Kind::Way) => leg(ctx, &f, &rd, <$reader>::new($src), &mut i, blocks, $kind, |r| r.ways().next().map(|o| model::from_way(&o)))?,
                    Some(Kind::Rel) => leg(ctx, &f, &rd, <$reader>::new($src), &mut i, blocks, $kind, |r| r.relations().next().map(|o| model::from_rel(&o)))?,
                }
            };
        }
        use osmio::arcpbf::PBFReader as ArcReader;
        use osmio::pbf::PBFReader as StringReader;
        let kind = match which {
            Which::StrOnly(k) | Which::ArcOnly(k) => Some(k),
            _ => None,
        };
        let done = match which {
            Which::Str | Which::StrOnly(_) if by_ref => go!(&mut rd.clone(), StringReader<_>, kind),
            Which::Str | Which::StrOnly(_) => go!(rd.clone(), StringReader<_>, kind),
            Which::Arc | Which::ArcOnly(_) if by_ref => go!(&mut rd.clone(), ArcReader<_>, kind),
            Which::Arc | Which::ArcOnly(_) => go!(rd.clone(), ArcReader<_>, kind),
            Which::Pos => leg_pos(ctx, &f, &rd, &mut i, blocks)?,
        };
        hops += 1;
        if done {
            ctx.probe_if(hops > 1, "handed_over");
            return Ok(());
        }
    }
}

/// One reader of the chain. True when the file is finished.
#[allow(clippy::too_many_arguments)]
fn leg<R: OSMReader>(
    ctx: &Ctx,
    f: &PbfFile,
    rd: &SimReader,
    mut r: R,
    i: &mut usize,
    mut blocks: u64,
    kind: Option<Kind>,
    next: impl Fn(&mut R) -> Option<Result<MObj, String>>,
) -> Result<bool, crate::ctx::Violation>
where
    R::R: Read,
{
    let wanted = |o: &MObj| kind.is_none_or(|k| o.kind == k);
    while let Some(k) = (*i..f.objs.len()).find(|&k| wanted(&f.objs[k])) {
        let b = &f.blocks[f.block_of(k)];
        rd.set_avail(b.end);
        match guard(|| next(&mut r)) {
            Err(Stop::Stall) => {
                return fail("read ahead", format!("object {k} is not delivered although its block (bytes {}..{}) has arrived: the reader asks for more", b.start, b.end));
            }
            Err(s) => return bad(&s, &format!("object {k}")),
            Ok(None) => return fail("lost object", format!("end reported before object {k} of {}", f.objs.len())),
            Ok(Some(Err(e))) => return fail("wrong object", e),
            Ok(Some(Ok(g))) => {
                if let Some(d) = diff(&f.objs[k], &g) {
                    return fail("wrong object", format!("object {k}: {d}"));
                }
            }
        }
        ctx.log(|| format!("object {k} delivered"));
        *i = k + 1;
        if !f.objs[*i..b.first + b.n].iter().any(wanted) {
            *i = b.first + b.n;
            if rd.pos() != b.end {
                return fail("position", format!("all objects of the block {}..{} are delivered, but the source is at byte {}", b.start, b.end, rd.pos()));
            }
            blocks -= 1;
            if blocks == 0 {
                rd.set_avail(b.end);
                match guard(|| {
                    let _back = r.into_inner();
                }) {
                    Err(Stop::Stall) => return fail("position", "taking the source back reads from it"),
                    Err(s) => return bad(&s, "taking the source back"),
                    Ok(()) => {}
                }
                if rd.pos() != b.end {
                    return fail("position", format!("the source taken back is at byte {} instead of {}", rd.pos(), b.end));
                }
                return Ok(false);
            }
        }
    }
    rd.set_avail(usize::MAX);
    let d = drain(ctx, 5, || next(&mut r), |o| o.clone());
    d.must_be_all(&[])?;
    Ok(true)
}

fn leg_pos(ctx: &Ctx, f: &PbfFile, rd: &SimReader, i: &mut usize, mut blocks: u64) -> Result<bool, crate::ctx::Violation> {
    let mut src = rd.clone();
    let mut r = osmio::stringpbf::PBFNodePositionReader::from_reader(&mut src);
    loop {
        let Some(k) = (*i..f.objs.len()).find(|&k| f.objs[k].kind == Kind::Node) else { break };
        let b = &f.blocks[f.block_of(k)];
        rd.set_avail(b.end);
        match guard(|| r.next()) {
            Err(Stop::Stall) => {
                return fail("read ahead", format!("node {k} is not delivered although its block (bytes {}..{}) has arrived: the reader asks for more", b.start, b.end));
            }
            Err(s) => return bad(&s, &format!("node {k}")),
            Ok(None) => return fail("lost object", format!("end reported before node {k}")),
            Ok(Some((id, (a, o)))) => {
                let got = as_node(&(id, (a.inner(), o.inner()))).unwrap();
                let want = as_node(&(f.objs[k].id, f.objs[k].pos.unwrap())).unwrap();
                if let Some(d) = diff(&want, &got) {
                    return fail("wrong object", format!("node {k}: {d}"));
                }
            }
        }
        *i = k + 1;
        let more = f.objs[*i..b.first + b.n].iter().any(|o| o.kind == Kind::Node);
        if !more {
            *i = b.first + b.n;
            if rd.pos() != b.end {
                return fail("position", format!("all nodes of the block {}..{} are delivered, but the source is at byte {}", b.start, b.end, rd.pos()));
            }
            blocks -= 1;
            if blocks == 0 {
                drop(r);
                if rd.pos() != b.end {
                    return fail("position", "dropping the reader moved the source");
                }
                return Ok(false);
            }
        }
    }
    rd.set_avail(usize::MAX);
    let d = drain(ctx, 5, || r.next().map(|(i, (a, b))| (i, (a.inner(), b.inner()))), as_node);
    d.must_be_all(&[])?;
    Ok(true)
}

// ---- C07

#[derive(Clone, Copy, Debug)]
enum Step {
    Typed(Kind, usize, bool),
    Objects(usize),
    Next(usize),
}

fn steps(ctx: &Ctx) -> Vec<Step> {
    let n = ctx.range(1, 8);
    let v: Vec<Step> = (0..n)
        .map(|_| {
            let take = match ctx.weighted(&[6, 2, 1]) {
                0 => ctx.us(4),
                1 => ctx.us(30),
                _ => 100_000,
            };
            match ctx.weighted(&[6, 2, 2]) {
                0 => Step::Typed(crate::generate::kind(ctx), take, ctx.chance(1, 2)),
                1 => Step::Objects(take),
                _ => Step::Next(take.min(10)),
            }
        })
        .collect();
    ctx.summary(|| format!("{v:?}"));
    v
}

struct Walk<'a> {
    ctx: &'a Ctx,
    objs: &'a [MObj],
    p: usize,
}

impl Walk<'_> {
    /// judge one answer; false when the iteration is over
    fn step(&mut self, kind: Option<Kind>, got: Result<Option<Result<MObj, String>>, Stop>) -> Result<bool, crate::ctx::Violation> {
        let want = (self.p..self.objs.len()).find(|&k| kind.is_none_or(|x| x == self.objs[k].kind));
        let what = || match kind {
            None => "an object".to_string(),
            Some(k) => format!("a {}", k.name()),
        };
        match (got, want) {
            (Err(s), _) => bad(&s, &format!("iterating {} from position {}", what(), self.p)),
            (Ok(None), None) => {
                self.p = self.objs.len();
                Ok(false)
            }
            (Ok(None), Some(k)) => fail("lost object", format!("iteration from position {} ends, but {} is still to come: object {k} ({})", self.p, what(), self.objs[k].short())),
            (Ok(Some(Err(e))), _) => fail("wrong object", e),
            (Ok(Some(Ok(g))), None) => fail("wrong object", format!("iteration from position {} yields {} but there is none left", self.p, g.short())),
            (Ok(Some(Ok(g))), Some(k)) => {
                if let Some(d) = diff(&self.objs[k], &g) {
                    return fail("wrong object", format!("iterating {} from position {}: object {k}: {d}", what(), self.p));
                }
                self.p = k + 1;
                self.ctx.log(|| format!("object {k} delivered"));
                Ok(true)
            }
        }
    }
}

macro_rules! take {
    ($w:expr, $kind:expr, $n:expr, $make:expr, $conv:expr) => {{
        let mut it = match guard(|| $make) {
            Ok(i) => i,
            Err(s) => return bad(&s, "starting an iteration"),
        };
        for _ in 0..$n {
            let got = guard(|| it.next().map(|o| $conv(&o)));
            if !$w.step($kind, got)? {
                // asked again, it stays at the end
                let got = guard(|| it.next().map(|o| $conv(&o)));
                if let Ok(Some(_)) = got {
                    return fail("revived", "an iterator yields something after its end");
                }
                break;
            }
        }
    }};
}

macro_rules! walk {
    ($ctx:expr, $r:expr, $objs:expr, $steps:expr, $inherent:expr) => {{
        let mut w = Walk { ctx: $ctx, objs: $objs, p: 0 };
        let mut r = $r;
        for s in $steps {
            $ctx.log(|| format!("{s:?} at position {}", w.p));
            match s {
                Step::Typed(Kind::Node, n, g) => typed!(w, r, Kind::Node, *n, nodes, model::from_node, *g && $inherent),
                Step::Typed(Kind::Way, n, g) => typed!(w, r, Kind::Way, *n, ways, model::from_way, *g && $inherent),
                Step::Typed(Kind::Rel, n, g) => typed!(w, r, Kind::Rel, *n, relations, model::from_rel, *g && $inherent),
                Step::Objects(n) => take!(w, None, *n, r.objects(), extract),
                Step::Next(n) => {
                    for _ in 0..*n {
                        let got = guard(|| r.next().map(|o| extract(&o)));
                        if !w.step(None, got)? {
                            break;
                        }
                    }
                }
            }
        }
        // whatever is left
        loop {
            let got = guard(|| r.next().map(|o| extract(&o)));
            if !w.step(None, got)? {
                break;
            }
        }
        Ok(())
    }};
}

macro_rules! typed {
    ($w:expr, $r:expr, $kind:expr, $n:expr, $f:ident, $conv:expr, $generic:expr) => {
        if $generic { take!($w, Some($kind), $n, OSMReader::$f(&mut $r), $conv) } else { take!($w, Some($kind), $n, $r.$f(), $conv) }
    };
}

pub fn c07(ctx: &Ctx) -> Res {
    match ctx.weighted(&[5, 3, 2, 2]) {
        fmt @ (0 | 1) => {
            let f = pbf::file(ctx, &Opts { max_group: 6, max_blocks: 12, big: false, ..Opts::default() });
            let rd = SimReader::planned(ctx, Arc::new(f.bytes.clone()));
            let st = steps(ctx);
            let sorted = f.objs.windows(2).all(|w| (w[0].kind as u8) <= (w[1].kind as u8)) && ctx.chance(1, 2);
            if fmt == 0 {
                let mut r = osmio::pbf::PBFReader::new(rd);
                if sorted {
                    r.assume_sorted();
                }
                walk!(ctx, r, &f.objs, &st, true)
            } else {
                let mut r = osmio::arcpbf::PBFReader::new(rd);
                if sorted {
                    r.assume_sorted();
                }
                walk!(ctx, r, &f.objs, &st, true)
            }
        }
        n => {
            let fmt = if n == 2 { Fmt::Xml } else { Fmt::Osc };
            let d = doc::osm_doc(ctx, fmt, 30);
            let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
            let st = steps(ctx);
            if fmt == Fmt::Xml { walk!(ctx, osmio::xml::XMLReader::new(rd), &d.objs, &st, false) } else { walk!(ctx, osmio::osc::OSCReader::new(rd), &d.objs, &st, false) }
        }
    }
}
