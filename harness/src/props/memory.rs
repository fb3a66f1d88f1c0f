use super::pbf::{Which, damage};
use crate::ctx::{Ctx, Res, Violation, fail};
use crate::doc::{self, Fmt};
use crate::generate::{self as mk, Chars, Meta};
use crate::io::{Chunk, SimReader};
use crate::mem::most_held;
use crate::model::{Kind, MObj, build};
use crate::pbf::{self, Opts, PbfFile};
use crate::rt::*;
use crate::tape::Rng;
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use osmio::obj_types::StringOSMObj;
use osmio::OSMWriter;
use std::io::Write;
use std::sync::Arc;

const KIB: u64 = 1 << 10;
const MIB: u64 = 1 << 20;

pub fn c24(ctx: &Ctx) -> Res {
    ctx.no_huge();
    match ctx.weighted(&[6, 2, 6]) {
        0 => long_input(ctx),
        1 => long_output(ctx),
        _ => damaged_input(ctx),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Target {
    Pbf(Which),
    Text(Fmt, Option<Kind>, bool),
    Changesets(bool),
    Tags,
}

impl Target {
    fn draw(ctx: &Ctx) -> Target {
        let t = match ctx.weighted(&[4, 3, 3, 2, 2]) {
            0 => Target::Pbf(Which::draw(ctx)),
            n @ (1 | 2) => {
                let only = if ctx.chance(1, 3) { Some(mk::kind(ctx)) } else { None };
                let bz = only.is_none() && ctx.chance(1, 4);
                Target::Text(if n == 1 { Fmt::Xml } else { Fmt::Osc }, only, bz)
            }
            3 => Target::Changesets(ctx.chance(1, 4)),
            _ => Target::Tags,
        };
        ctx.summary(|| format!("{t:?}"));
        t
    }
    fn bz2(self) -> bool {
        matches!(self, Target::Text(_, _, true) | Target::Changesets(true) | Target::Tags)
    }
}

/// how reading ended
#[derive(Debug, PartialEq)]
struct Outcome {
    items: usize,
    loud: bool,
}

fn count<O>(ctx: &Ctx, max: usize, next: Result<Result<Next<O>, String>, Stop>) -> Result<Outcome, Violation> {
    let next = match next {
        Err(Stop::Panic(_)) | Ok(Err(_)) => return Ok(Outcome { items: 0, loud: true }),
        Err(s) => return bad(&s, "opening"),
        Ok(Ok(n)) => n,
    };
    let d = drain(ctx, max, next, |_| Ok(()));
    match &d.end {
        End::Clean => Ok(Outcome { items: d.got.len(), loud: false }),
        End::Stopped(Stop::Panic(_)) => Ok(Outcome { items: d.got.len(), loud: true }),
        End::Stopped(s) => bad(s, &format!("after {} objects", d.got.len())),
        End::Incoherent(e) => fail("wrong object", e.clone()),
        End::Revived => fail("revived", "the reader yields an object after it reported the end"),
        End::TooMany => fail("endless", format!("more than {max} objects out of a small file")),
    }
}

/// errors are items here; whoever goes on after one must reach the end at some time, unless `stop`: the source
/// keeps failing, so they stop
fn count_results<T>(max: usize, stop: bool, mut next: impl FnMut() -> Option<anyhow::Result<T>>) -> Result<Outcome, Violation> {
    let (mut items, mut errors) = (0, 0);
    loop {
        match guard(&mut next) {
            Err(s) => return bad(&s, &format!("after {items} changesets and {errors} errors")),
            Ok(None) => return Ok(Outcome { items, loud: errors > 0 }),
            Ok(Some(Ok(_))) => items += 1,
            Ok(Some(Err(_))) if stop => return Ok(Outcome { items, loud: true }),
            Ok(Some(Err(_))) => errors += 1,
        }
        if items + errors > max {
            return fail("endless", format!("{items} changesets and {errors} errors out of a small file, and no end"));
        }
    }
}

/// reads everything, keeps nothing
fn consume(ctx: &Ctx, t: Target, rd: &SimReader, via: Via, max: usize, stop: bool) -> Result<Outcome, Violation> {
    match t {
        Target::Pbf(Which::Str) => count(ctx, max, guard(|| open_string(rd, via, false))),
        Target::Pbf(Which::Arc) => count(ctx, max, guard(|| open_arc(rd, via, false))),
        Target::Pbf(Which::Pos) => count(ctx, max, guard(|| open_nodepos(rd, via))),
        Target::Pbf(Which::StrOnly(k)) => count(ctx, max, guard(|| typed_string(rd, via, k))),
        Target::Pbf(Which::ArcOnly(k)) => count(ctx, max, guard(|| typed_arc(rd, via, k))),
        Target::Text(Fmt::Xml, None, false) => count(ctx, max, guard(|| open_xml(rd, via, false))),
        Target::Text(Fmt::Osc, None, false) => count(ctx, max, guard(|| open_osc(rd, via, false))),
        Target::Text(Fmt::Xml, None, true) => count(ctx, max, guard(|| open_xml_bz2(rd, via))),
        Target::Text(Fmt::Osc, None, true) => count(ctx, max, guard(|| open_osc_bz2(rd))),
        Target::Text(Fmt::Xml, Some(k), _) => count(ctx, max, guard(|| typed_xml(rd, via, k))),
        Target::Text(Fmt::Osc, Some(k), _) => count(ctx, max, guard(|| typed_osc(rd, via, k))),
        Target::Changesets(false) => {
            let mut r = ChangesetReader::new(rd.clone());
            count_results(max, stop, || r.next())
        }
        Target::Changesets(true) => {
            let mut r = ChangesetReader::from_bz2_reader(rd.clone());
            count_results(max, stop, || r.next())
        }
        Target::Tags => match ChangesetTagReader::from_filename(&crate::simfs::add(rd, ".osm.bz2")) {
            Ok(mut r) => count_results(max, stop, || r.next()),
            Err(_) => Ok(Outcome { items: 0, loud: true }),
        },
    }
}

/// a file which is this (head, unit, tail) with n units
struct Units {
    head: Vec<u8>,
    unit: Vec<u8>,
    tail: Vec<u8>,
    /// what a reader of the target yields per unit
    items: usize,
}

impl Units {
    fn of(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.head.len() + n * self.unit.len() + self.tail.len());
        v.extend_from_slice(&self.head);
        for _ in 0..n {
            v.extend_from_slice(&self.unit);
        }
        v.extend_from_slice(&self.tail);
        v
    }
}

fn split(bytes: &[u8], from: usize, to: usize, items: usize) -> Units {
    Units { head: bytes[..from].to_vec(), unit: bytes[from..to].to_vec(), tail: bytes[to..].to_vec(), items }
}

fn units(ctx: &Ctx, t: Target) -> Option<Units> {
    match t {
        Target::Pbf(w) => {
            let mut f = PbfFile::default();
            let h = pbf::header_block(ctx);
            f.push_other(ctx, "OSMHeader", h);
            let o = Opts { big: ctx.chance(1, 4), ..Opts::default() };
            for _ in 0..ctx.range(1, 3) {
                f.push_random(ctx, &o);
            }
            let from = f.blocks[0].end;
            Some(split(&f.bytes, from, f.bytes.len(), w.view(&f.objs).len()))
        }
        Target::Text(fmt, only, _) => {
            let d = doc::osm_doc(ctx, fmt, 8);
            if d.objs.is_empty() {
                return None;
            }
            let end = d.root_end - if fmt == Fmt::Xml { "</osm>".len() } else { "</osmChange>".len() };
            let items = d.objs.iter().filter(|o| only.is_none_or(|k| k == o.kind)).count();
            Some(split(&d.bytes, d.root_open, end, items))
        }
        Target::Changesets(_) | Target::Tags => {
            let d = doc::changesets(ctx, 6);
            if d.cs.is_empty() {
                return None;
            }
            let end = d.root_end - "</osm>".len();
            let items = if t == Target::Tags { 0 } else { d.cs.len() };
            Some(split(&d.bytes, d.root_open, end, items))
        }
    }
}

fn pack(t: Target, data: Vec<u8>) -> Vec<u8> {
    if !t.bz2() {
        return data;
    }
    let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(1));
    e.write_all(&data).unwrap();
    e.finish().unwrap()
}

/// Eight times as much input must not need more memory
fn long_input(ctx: &Ctx) -> Res {
    let t = Target::draw(ctx);
    let Some(u) = units(ctx, t) else { return Ok(()) };
    let n = (100 * 1024 / u.unit.len()).max(3);
    let mut held = [0; 2];
    let via = Via::draw(ctx);
    for (i, n) in [n, 8 * n].into_iter().enumerate() {
        let bytes = Arc::new(pack(t, u.of(n)));
        let rd = SimReader::planned(ctx, bytes);
        let (out, most) = most_held(|| consume(ctx, t, &rd, via, usize::MAX, false));
        let out = out?;
        if out.loud || (u.items > 0 && out.items != n * u.items) {
            return fail("lost object", format!("{} objects of {}{}", out.items, n * u.items, if out.loud { ", then a failure" } else { "" }));
        }
        held[i] = most;
        ctx.objects(out.items);
        ctx.log(|| format!("{n} units of {} bytes: at most {most} bytes held", u.unit.len()));
    }
    ctx.probe("long_input");
    grows(held, &format!("reading {n} and {} units of {} bytes", 8 * n, u.unit.len()))
}

fn grows(held: [u64; 2], what: &str) -> Res {
    if held[1] > held[0] + held[0] / 4 + 48 * KIB {
        return fail("memory", format!("{what} holds up to {} and {} bytes: it grows with the length of the data", held[0], held[1]));
    }
    Ok(())
}

/// takes everything, keeps nothing
struct Hole {
    rng: Rng,
    chunk: Chunk,
}

impl Write for Hole {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(self.chunk.size(&mut self.rng).min(b.len()))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn long_output(ctx: &Ctx) -> Res {
    let meta = Meta::draw(ctx);
    let objs: Vec<StringOSMObj> = (0..ctx.range(1, 4))
        .map(|_| {
            let (k, id) = (mk::kind(ctx), mk::id(ctx));
            let o: MObj = mk::object(ctx, k, id, Chars::Xml, &meta);
            build(&o)
        })
        .collect();
    let osc = ctx.chance(1, 2);
    let chunk = Chunk::draw(ctx);
    let seed = ctx.draw(1 << 32);
    let n = 300;
    let mut held = [0; 2];
    for (i, n) in [n, 8 * n].into_iter().enumerate() {
        let hole = Hole { rng: Rng(seed), chunk: chunk.clone() };
        let (res, most) = most_held(|| if osc { write::<osmio::osc::OSCWriter<Hole>>(hole, &objs, n) } else { write::<osmio::xml::XMLWriter<Hole>>(hole, &objs, n) });
        res?;
        held[i] = most;
        ctx.objects(n);
    }
    ctx.probe("long_output");
    ctx.summary(|| format!("{} output of {} objects", if osc { "OSC" } else { "XML" }, 8 * n));
    ctx.event(24, held[0], held[1]);
    grows(held, "writing")
}

fn write<W: OSMWriter<Hole>>(hole: Hole, objs: &[StringOSMObj], n: usize) -> Res {
    let r = guard(|| {
        let mut w = W::new(hole);
        for o in objs.iter().cycle().take(n) {
            w.write_obj(o)?;
        }
        w.close()
    });
    match r {
        Err(s) => bad(&s, "writing"),
        Ok(Err(e)) => fail("error", e.to_string()),
        Ok(Ok(())) => Ok(()),
    }
}

/// Stored bytes changed anywhere, also in lengths and frames: reading ends, soon, without needing much memory
fn damaged_input(ctx: &Ctx) -> Res {
    let t = Target::draw(ctx);
    let mut claims = None;
    let (mut bytes, starts) = match t {
        Target::Pbf(_) => {
            let f = pbf::file(ctx, &Opts { max_group: 10, ..Opts::default() });
            if ctx.chance(1, 3) {
                let mut g = PbfFile { bytes: f.bytes.clone(), ..PbfFile::default() };
                pbf::push_claim(ctx, &mut g);
                claims = Some(g.bytes);
            }
            (f.bytes, f.blocks.iter().map(|b| (b.start, b.blob)).collect::<Vec<_>>())
        }
        Target::Text(fmt, ..) => (doc::osm_doc(ctx, fmt, 12).bytes, vec![]),
        _ => (doc::changesets(ctx, 12).bytes, vec![]),
    };
    if bytes.is_empty() && claims.is_none() {
        return Ok(());
    }
    // what it takes as it was
    let clean = Arc::new(pack(t, bytes.clone()));
    let rd = SimReader::plain(ctx, clean.clone());
    let (out, normal) = most_held(|| consume(ctx, t, &rd, Via::Direct, usize::MAX, false));
    out?;
    let size = bytes.len();
    let inside = t.bz2() && ctx.chance(1, 2);
    if t.bz2() && !inside {
        bytes = clean.to_vec();
    }
    let places = if let Some(c) = claims {
        bytes = c;
        0
    } else {
        ctx.range(1, 3)
    };
    for _ in 0..places {
        if !starts.is_empty() && ctx.chance(2, 3) {
            // what frames a block
            let (start, blob) = *ctx.pick(&starts);
            let at = start + if ctx.chance(1, 2) { ctx.us(4) } else { ctx.us(blob - start + 6) };
            if at < bytes.len() {
                bytes[at] = if ctx.chance(1, 3) { bytes[at] ^ (1 << ctx.us(8)) } else { *ctx.pick(&[0xffu8, 0x7f, 0x80, 0x3f, 0x01, 0x00, 0x10]) };
                ctx.fault("damaged_frame");
            }
        } else {
            bytes = damage(ctx, &bytes);
        }
    }
    if inside {
        bytes = pack(t, bytes);
    }
    ctx.hash_bytes(&bytes);
    let max = 1000 + 20 * (size + bytes.len()) + (normal / 32) as usize;
    let rd = SimReader::planned(ctx, Arc::new(bytes.clone()));
    let via = Via::draw(ctx);
    let (out, most) = most_held(|| consume(ctx, t, &rd, via, max, t.bz2() && !inside));
    let out = out?;
    ctx.probe_if(out.loud, "damage_noticed");
    ctx.probe_if(!out.loud, "damage_not_noticed");
    let limit = 2 * normal + 300 * (size + bytes.len()) as u64 + 80 * MIB;
    if most > limit {
        return fail("memory", format!("reading {} damaged bytes asks for {most} bytes of memory", bytes.len()));
    }
    Ok(())
}
