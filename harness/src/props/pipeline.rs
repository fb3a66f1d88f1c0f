use super::write::{judge_doc, lib_read};
use crate::ctx::{Ctx, Res, Violation, fail};
use crate::doc::{self, Fmt};
use crate::generate::{self as mk, Chars};
use crate::io::{SimReader, SimWriter};
use crate::model::{Kind, MObj, extract, timestamp};
use crate::pbf::{self, Opts};
use crate::rt::*;
use osmio::obj_types::{ArcOSMObj, StringNode, StringOSMObj, StringRelation, StringWay};
use osmio::osc::OSCWriter;
use osmio::prelude::*;
use osmio::xml::XMLWriter;
use osmio::{Lat, Lon, OSMWriter};
use std::io::{BufWriter, Write};
use std::sync::Arc;

/// one edit, on the library's object and on the model
pub fn edit<O: OSMObj>(ctx: &Ctx, o: &mut O, m: &mut MObj, chars: Chars) {
    match ctx.weighted(&[4, 3, 1, 1, 1, 1, 1, 1, 1, 1, 5, 1]) {
        0 => {
            let k = if !m.tags.is_empty() && ctx.chance(1, 3) { m.tags[ctx.us(m.tags.len())].0.clone() } else { mk::nonempty(ctx, chars) };
            let v = mk::text(ctx, chars);
            o.set_tag(&k, v.clone());
            m.set_tag(&k, &v);
        }
        1 => {
            let k = if !m.tags.is_empty() && !ctx.chance(1, 4) { m.tags[ctx.us(m.tags.len())].0.clone() } else { mk::nonempty(ctx, chars) };
            o.unset_tag(&k);
            m.unset_tag(&k);
        }
        2 => {
            m.version = some(ctx, mk::u31(ctx));
            o.set_version(m.version);
        }
        3 => {
            m.changeset = some(ctx, mk::changeset_id(ctx));
            o.set_changeset_id(m.changeset);
        }
        4 => {
            m.ts = some(ctx, mk::ts(ctx));
            o.set_timestamp(m.ts.as_ref().map(timestamp));
        }
        5 => {
            m.uid = some(ctx, mk::u31(ctx));
            o.set_uid(m.uid);
        }
        6 => {
            m.user = some(ctx, mk::user(ctx, chars));
            o.set_user(m.user.as_deref());
        }
        7 => {
            m.deleted = !m.deleted;
            o.set_deleted(m.deleted);
        }
        8 => {
            m.id = mk::id(ctx);
            o.set_id(m.id);
        }
        9 => {
            m.uid = None;
            m.user = None;
            m.changeset = None;
            o.strip_metadata();
        }
        10 => match m.kind {
            Kind::Node => {
                let n = o.as_node_mut().expect("as_node_mut of a node");
                m.pos = some(ctx, (mk::lat(ctx), mk::lon(ctx)));
                match m.pos {
                    None if ctx.chance(1, 2) => n.unset_lat_lon(),
                    Some((a, b)) if ctx.chance(1, 2) => n.set_lat_lon((Lat::from_inner(a).degrees(), Lon::from_inner(b).degrees())).expect("set_lat_lon"),
                    p => n.set_lat_lon_direct(p.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b)))),
                }
            }
            Kind::Way => {
                m.nodes = mk::refs(ctx, 30);
                o.as_way_mut().expect("as_way_mut of a way").set_nodes(m.nodes.iter().copied());
            }
            Kind::Rel => {
                m.members = mk::members(ctx, chars, 12);
                o.as_relation_mut().expect("as_relation_mut of a relation").set_members(m.members.iter().map(|(k, i, r)| (k.osm(), *i, r.clone())));
            }
        },
        _ => {
            // the same through the typed view
            let k = mk::nonempty(ctx, chars);
            let v = mk::text(ctx, chars);
            m.set_tag(&k, &v);
            m.deleted = ctx.chance(1, 2);
            match m.kind {
                Kind::Node => typed(o.as_node_mut().expect("as_node_mut"), &k, &v, m.deleted),
                Kind::Way => typed(o.as_way_mut().expect("as_way_mut"), &k, &v, m.deleted),
                Kind::Rel => typed(o.as_relation_mut().expect("as_relation_mut"), &k, &v, m.deleted),
            }
        }
    }
}

fn typed(o: &mut impl OSMObjBase, k: &str, v: &str, deleted: bool) {
    o.set_tag(k, v);
    o.set_deleted(deleted);
}

fn some<T>(ctx: &Ctx, x: T) -> Option<T> {
    if ctx.chance(1, 4) { None } else { Some(x) }
}

macro_rules! lib {
    ($what:expr, $call:expr) => {
        match guard(|| $call) {
            Ok(x) => x,
            Err(s) => return bad(&s, $what),
        }
    };
}

/// what the sink held at some instant before the end
struct Snap {
    bytes: Vec<u8>,
}

struct Plan {
    edit: u64,
    drop: u64,
    convert: bool,
    explicit: bool,
    snap: usize,
}

/// the whole conversion; returns the edited objects
fn convert<W: Write, T: OSMWriter<W>, O: OSMObj>(
    ctx: &Ctx,
    src: &[MObj],
    mut next: Next<O>,
    own: fn(O) -> StringOSMObj,
    w: W,
    sink: &SimWriter,
    p: &Plan,
    fmt: Fmt,
    snaps: &mut Vec<Snap>,
) -> Result<Vec<MObj>, Violation> {
    let mut t = lib!("new", T::new(w));
    let mut out = Vec::new();
    for (i, s) in src.iter().enumerate() {
        let mut o = match lib!(&format!("reading object {i}"), next()) {
            Some(o) => o,
            None => return fail("lost object", format!("the source ends before object {i}")),
        };
        let mut m = s.clone();
        if ctx.chance(1, p.drop) {
            continue;
        }
        if ctx.chance(1, p.edit) {
            for _ in 0..ctx.range(1, 3) {
                lib!("editing", edit(ctx, &mut o, &mut m, Chars::Xml));
            }
            ctx.probe("edited");
        }
        if i == p.snap {
            snaps.push(Snap { bytes: sink.bytes() });
        }
        let r = if p.convert { {
            let owned = lib!("converting", own(o));
            lib!("write_obj", t.write_obj(&owned))
        } } else { lib!("write_obj", t.write_obj(&o)) };
        if let Err(e) = r {
            return fail("error", format!("write_obj: {e}"));
        }
        ctx.log(|| format!("object {i} converted"));
        out.push(m);
    }
    if lib!("reading the end", next()).is_some() {
        return fail("wrong object", "the source yields more than it holds");
    }
    snaps.push(Snap { bytes: sink.bytes() });
    if p.explicit {
        if let Err(e) = lib!("close", t.close()) {
            return fail("error", format!("close: {e}"));
        }
        judge_doc(ctx, fmt, &sink.bytes(), &vec![], &out)?;
        snaps.push(Snap { bytes: sink.bytes() });
    }
    lib!("drop", drop(t));
    if !p.explicit {
        judge_doc(ctx, fmt, &sink.bytes(), &vec![], &out)?;
        snaps.push(Snap { bytes: sink.bytes() });
    }
    Ok(out)
}

// half of the objects go through their typed form
fn keep(o: StringOSMObj) -> StringOSMObj {
    if o.id() % 2 == 0 {
        return o;
    }
    match Kind::of(o.object_type()) {
        Kind::Node => o.into_node().expect("into_node of a node").into(),
        Kind::Way => o.into_way().expect("into_way of a way").into(),
        Kind::Rel => o.into_relation().expect("into_relation of a relation").into(),
    }
}
fn own(o: ArcOSMObj) -> StringOSMObj {
    if o.id() % 2 == 0 {
        return o.into();
    }
    let other = o.clone();
    let wrong = match Kind::of(o.object_type()) {
        Kind::Node => other.into_way().is_some(),
        Kind::Way => other.into_relation().is_some(),
        Kind::Rel => other.into_node().is_some(),
    };
    assert!(!wrong, "into_* of an object of another type");
    match Kind::of(o.object_type()) {
        Kind::Node => StringNode::from(o.into_node().expect("into_node of a node")).into(),
        Kind::Way => StringWay::from(o.into_way().expect("into_way of a way")).into(),
        Kind::Rel => StringRelation::from(o.into_relation().expect("into_relation of a relation")).into(),
    }
}

fn open<O>(r: Result<Result<Next<O>, String>, Stop>) -> Result<Next<O>, Violation> {
    match r {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => fail("open", e),
        Err(s) => bad(&s, "opening"),
    }
}

pub fn c21(ctx: &Ctx) -> Res {
    let to = if ctx.chance(1, 2) { Fmt::Osc } else { Fmt::Xml };
    let p = Plan {
        edit: *ctx.pick(&[2u64, 1, 5, 50]),
        drop: *ctx.pick(&[40u64, 4, 2]),
        convert: ctx.chance(1, 3),
        explicit: !ctx.chance(1, 5),
        snap: ctx.us(12),
    };
    let cap = *ctx.pick(&[0usize, 8192, 100, 1]);
    let from = ctx.us(4);
    let (src, bytes) = match from {
        0 | 1 => {
            let f = pbf::file(ctx, &Opts { chars: Chars::Xml, max_group: 10, max_blocks: 5, big: false, ..Opts::default() });
            (f.objs, f.bytes)
        }
        n => {
            let d = doc::osm_doc(ctx, if n == 2 { Fmt::Xml } else { Fmt::Osc }, 25);
            (d.objs, d.bytes)
        }
    };
    let rd = SimReader::planned(ctx, Arc::new(bytes));
    let via = Via::draw(ctx);
    let sink = SimWriter::planned(ctx);
    ctx.summary(|| format!("from {} to {to:?}, buffer {cap}", ["PBF", "PBF (arc)", "XML", "OSC"][from]));
    let mut snaps = Vec::new();
    macro_rules! go {
        ($next:expr, $own:expr) => {{
            let next = open(guard(|| $next))?;
            match (to, cap) {
                (Fmt::Xml, 0) => convert::<_, XMLWriter<_>, _>(ctx, &src, next, $own, sink.clone(), &sink, &p, to, &mut snaps),
                (Fmt::Osc, 0) => convert::<_, OSCWriter<_>, _>(ctx, &src, next, $own, sink.clone(), &sink, &p, to, &mut snaps),
                (Fmt::Xml, n) => convert::<_, XMLWriter<_>, _>(ctx, &src, next, $own, BufWriter::with_capacity(n, sink.clone()), &sink, &p, to, &mut snaps),
                (Fmt::Osc, n) => convert::<_, OSCWriter<_>, _>(ctx, &src, next, $own, BufWriter::with_capacity(n, sink.clone()), &sink, &p, to, &mut snaps),
            }
        }};
    }
    let out = match from {
        0 => go!(open_string(&rd, via, false), keep),
        1 => go!(open_arc(&rd, via, true), own),
        2 => go!(open_xml(&rd, via, true), keep),
        _ => go!(open_osc(&rd, via, false), keep),
    }?;
    // crashes
    let full = snaps.pop().unwrap().bytes;
    let end = full.iter().rposition(|&b| b == b'>').map_or(0, |i| i + 1);
    for s in &snaps {
        if s.bytes.len() >= end {
            return fail("false document", "the document is complete before close");
        }
        ctx.fault("crash_before_close");
        interrupted(ctx, to, &s.bytes, &out, "crash before close")?;
    }
    for _ in 0..3 {
        let at = if ctx.chance(1, 3) { end - 1 - ctx.us(end.min(14)) } else { ctx.us(end) };
        ctx.fault("lost_output_tail");
        interrupted(ctx, to, &full[..at], &out, &format!("output cut at {at} of {}", full.len()))?;
    }
    Ok(())
}

fn interrupted(ctx: &Ctx, fmt: Fmt, bytes: &[u8], out: &[MObj], what: &str) -> Res {
    let rd = SimReader::planned(ctx, Arc::new(bytes.to_vec()));
    let res = lib_read(ctx, fmt, rd, out.len() + 20);
    match res.must_fail_within(out, 0, out.len()) {
        Ok(()) => Ok(()),
        Err(v) => fail(&v.class, format!("{what}: {}", v.msg)),
    }
}

/// used by the tests of shared objects, too
pub fn same(o: &impl OSMObj, want: &MObj, what: &str) -> Res {
    match extract(o) {
        Err(e) => fail("wrong object", format!("{what}: {e}")),
        Ok(g) => match crate::model::diff(want, &g) {
            Some(d) => fail("wrong object", format!("{what}: {d}")),
            None => Ok(()),
        },
    }
}
