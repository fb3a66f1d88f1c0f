//! Generated objects: the workload of the simulated runs.
use crate::ctx::Ctx;
use crate::model::{Kind, MObj, Ts, iso_of};

/// which characters strings may contain
#[derive(Clone, Copy, PartialEq)]
pub enum Chars {
    /// everything UTF-8 can hold (PBF)
    Any,
    /// everything XML 1.0 can express
    Xml,
}

const WORDS: &[&str] = &[
    "highway", "name", "residential", "yes", "no", "a", "b", "source", "Main Street", "ref", "note", "k", "v", "area", "x y", "amenity",
    "created_by", "outer", "inner", "stop",
];
const SPECIAL: &[&str] = &[
    "&", "<", ">", "\"", "'", "&amp;", "]]>", "<!--", "-->", "\u{e9}", "\u{4e2d}\u{6587}", "\u{1F5FA}", "\u{1F469}\u{200D}\u{1F680}", " ", "  ", ";", "#", "&#10;", "%", "=",
    "/>", "</osm>", "\\", "\u{a0}", "\u{85}", "\u{2028}", "\u{fffd}", "\u{10ffff}", "\u{7f}", "\u{d7ff}", "\u{e000}", "\u{feff}", "{", "}", "null", "0",
];
const WHITE: &[&str] = &["\n", "\t", "\r", "\r\n", " \n ", "\n\n"];
const CONTROL: &[&str] = &["\0", "\u{1}", "\u{1b}", "\u{8}", "\u{c}", "\u{fffe}", "\u{ffff}"];

fn piece(ctx: &Ctx, chars: Chars, out: &mut String) {
    match ctx.weighted(&[6, 6, 3, 2, if chars == Chars::Any { 2 } else { 0 }]) {
        0 => out.push_str(*ctx.pick(WORDS)),
        1 => out.push_str(*ctx.pick(SPECIAL)),
        2 => out.push((b'a' + ctx.us(26) as u8) as char),
        3 => out.push_str(*ctx.pick(WHITE)),
        _ => out.push_str(*ctx.pick(CONTROL)),
    }
}

pub fn text(ctx: &Ctx, chars: Chars) -> String {
    let mut s = String::new();
    match ctx.weighted(&[16, 10, 4, 2, 1]) {
        0 => s.push_str(*ctx.pick(WORDS)),
        4 => {
            // long, and something special somewhere in it
            for _ in 0..ctx.range(1, 3) {
                for _ in 0..*ctx.pick(&[1usize, 7, 8, 15, 16, 31, 32, 33, 64, 100, 127, 128, 250, 300]) + ctx.us(8) {
                    s.push('x');
                }
                piece(ctx, chars, &mut s);
            }
            for _ in 0..ctx.us(70) {
                s.push('y');
            }
        }
        1 => {
            for _ in 0..ctx.range(1, 5) {
                piece(ctx, chars, &mut s);
            }
        }
        2 => {}
        _ => {
            // around the sizes where inline strings and small buffers end
            let unit = *ctx.pick(&["z", "\u{e9}", "<", "ab&"]);
            let n = *ctx.pick(&[22usize, 23, 24, 25, 63, 255, 256, 1000]);
            for _ in 0..n {
                s.push_str(unit);
            }
        }
    }
    s
}

pub fn nonempty(ctx: &Ctx, chars: Chars) -> String {
    let s = text(ctx, chars);
    if s.is_empty() { "e".into() } else { s }
}

/// lengths around and beyond the usual buffers
pub fn big_len(ctx: &Ctx) -> usize {
    if !ctx.lock().huge {
        return *ctx.pick(&[8200usize, 8190, 20_000]);
    }
    match ctx.weighted(&[12, 4, 1]) {
        0 => *ctx.pick(&[8200usize, 8190, 20_000]),
        1 => *ctx.pick(&[32_768usize, 65_530, 65_536, 70_000]),
        _ => *ctx.pick(&[300_000usize, 1_100_000]),
    }
}

/// how many small objects a long document has
pub fn long(ctx: &Ctx) -> u64 {
    match ctx.weighted(&[12, 6, 1]) {
        0 => *ctx.pick(&[257u64, 500, 1001, 1025]),
        1 => *ctx.pick(&[2050u64, 4097, 5000]),
        _ => 10_001,
    }
}

/// small ones, and many of them
pub fn small_objects(ctx: &Ctx, chars: Chars) -> Vec<MObj> {
    let meta = Meta::draw(ctx);
    let kinds: Vec<Kind> = (0..ctx.range(1, 5)).map(|_| kind(ctx)).collect();
    let protos: Vec<MObj> = kinds
        .into_iter()
        .map(|k| {
            let mut o = object(ctx, k, 1, chars, &meta);
            o.tags.truncate(1);
            o.tags.retain(|(k, v)| k.len() + v.len() < 100);
            o.nodes.truncate(3);
            o.members.truncate(2);
            o
        })
        .collect();
    let n = long(ctx);
    ctx.probe("long_document");
    (0..n)
        .map(|i| {
            let mut o = protos[i as usize % protos.len()].clone();
            o.id = 10 + i as i64;
            o
        })
        .collect()
}

pub fn big_text(ctx: &Ctx, n: usize) -> String {
    let mut r = ctx.subrng();
    let mut s = String::with_capacity(n + 8);
    while s.len() < n {
        match r.below(40) {
            0 => s.push('\u{e9}'),
            1 => s.push('\u{4e2d}'),
            2 => s.push('&'),
            3 => s.push('\u{1F5FA}'),
            k => s.push((b'A' + (k % 26) as u8) as char),
        }
    }
    s
}

pub fn tags(ctx: &Ctx, chars: Chars, max: u64) -> Vec<(String, String)> {
    if ctx.chance(1, 120) {
        let n = (many(ctx) / 4).max(13);
        ctx.probe("many_tags");
        let mut r = ctx.subrng();
        return (0..n).map(|i| (format!("{}:{i}", WORDS[r.below(WORDS.len() as u64) as usize]), WORDS[r.below(WORDS.len() as u64) as usize].to_string())).collect();
    }
    let n = match ctx.weighted(&[3, 4, 2, 1]) {
        0 => 0,
        1 => 1,
        2 => ctx.range(2, 4),
        _ => ctx.range(0, max),
    };
    let mut v: Vec<(String, String)> = Vec::new();
    for i in 0..n {
        let mut k = nonempty(ctx, chars);
        if v.iter().any(|(a, _)| *a == k) {
            k.push_str(&format!("_{i}"));
        }
        let val = text(ctx, chars);
        if !v.iter().any(|(a, _)| *a == k) {
            v.push((k, val));
        }
    }
    v
}

pub const ID_LIMIT: i64 = 1 << 61;

pub fn id(ctx: &Ctx) -> i64 {
    match ctx.weighted(&[6, 3, 2, 1, 1]) {
        0 => 1 + ctx.us(40) as i64,
        1 => ctx.us(1 << 34) as i64,
        2 => -(ctx.us(1000) as i64),
        3 => *ctx.pick(&[0, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, 1 << 40, 1 << 53, (1 << 53) + 1]),
        _ => {
            let v = ctx.draw(ID_LIMIT as u64) as i64;
            if ctx.chance(1, 2) { -v } else { v }
        }
    }
}

pub fn u31(ctx: &Ctx) -> u32 {
    match ctx.weighted(&[6, 2, 1]) {
        0 => 1 + ctx.us(50) as u32,
        1 => ctx.us(20_000_000) as u32,
        _ => *ctx.pick(&[0, 255, 65535, 65536, i32::MAX as u32 - 1, 1]),
    }
}

pub fn changeset_id(ctx: &Ctx) -> u32 {
    match ctx.weighted(&[5, 2, 1]) {
        0 => 1 + ctx.us(100) as u32,
        1 => ctx.us(200_000_000) as u32,
        _ => *ctx.pick(&[0, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX, u32::MAX - 1]),
    }
}

pub const T_MAX: i64 = 253_402_300_799;

pub fn epoch(ctx: &Ctx) -> i64 {
    match ctx.weighted(&[4, 4, 1, 1]) {
        0 => 1_500_000_000 + ctx.us(1000) as i64,
        1 => 1_112_000_000 + ctx.us(700_000_000) as i64,
        2 => *ctx.pick(&[0, 1, 59, 60, 951_782_399, 951_782_400, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, 4_107_542_400, T_MAX]),
        _ => ctx.draw(T_MAX as u64 + 1) as i64,
    }
}

pub fn lat(ctx: &Ctx) -> i32 {
    coord(ctx, 900_000_000)
}
pub fn lon(ctx: &Ctx) -> i32 {
    coord(ctx, 1_800_000_000)
}
fn coord(ctx: &Ctx, lim: i64) -> i32 {
    (match ctx.weighted(&[2, 6, 2]) {
        0 => ctx.us(1000) as i64,
        1 => ctx.draw(2 * lim as u64 + 1) as i64 - lim,
        _ => *ctx.pick(&[0, 1, -1, lim, -lim, lim - 1, 10_000_000, -10_000_000, 123_456_789, -99, 100]),
    }) as i32
}

/// about how many things a really big object has
fn many(ctx: &Ctx) -> u64 {
    if ctx.huge(40) {
        return *ctx.pick(&[8000u64, 10_000, 32_770, 65_540]);
    }
    *ctx.pick(&[50u64, 64, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1024, 2000, 2001, 2500]) + ctx.draw(3)
}

pub fn refs(ctx: &Ctx, max: u64) -> Vec<i64> {
    if ctx.chance(1, 60) {
        let n = many(ctx);
        ctx.probe("way_with_many_nodes");
        let mut r = ctx.subrng();
        return (0..n).map(|_| 1 + r.below(if n % 2 == 0 { 1 << 34 } else { 300 }) as i64).collect();
    }
    let n = match ctx.weighted(&[3, 4, 1]) {
        0 => ctx.range(2, 3),
        1 => ctx.range(0, 8),
        _ => ctx.range(0, max),
    };
    let mut v: Vec<i64> = Vec::new();
    for _ in 0..n {
        let x = match ctx.weighted(&[5, 2]) {
            0 => 1 + ctx.us(300) as i64,
            _ => id(ctx),
        };
        v.push(x);
    }
    if v.len() > 2 && ctx.chance(1, 3) {
        let f = v[0];
        v.push(f);
    }
    v
}

pub fn members(ctx: &Ctx, chars: Chars, max: u64) -> Vec<(Kind, i64, String)> {
    if ctx.chance(1, 60) {
        let n = many(ctx);
        ctx.probe("relation_with_many_members");
        let mut r = ctx.subrng();
        return (0..n)
            .map(|_| {
                let k = [Kind::Way, Kind::Node, Kind::Rel][r.below(3) as usize];
                (k, 1 + r.below(1 << 34) as i64, WORDS[r.below(WORDS.len() as u64) as usize].to_string())
            })
            .collect();
    }
    let n = match ctx.weighted(&[5, 1]) {
        0 => ctx.range(0, 4),
        _ => ctx.range(0, max),
    };
    (0..n)
        .map(|_| {
            let k = *ctx.pick(&[Kind::Way, Kind::Node, Kind::Rel]);
            let i = if ctx.chance(1, 4) { id(ctx) } else { 1 + ctx.us(500) as i64 };
            let r = if ctx.chance(1, 3) { text(ctx, chars) } else { String::new() };
            (k, i, r)
        })
        .collect()
}

pub fn user(ctx: &Ctx, chars: Chars) -> String {
    if ctx.chance(1, 3) { nonempty(ctx, chars) } else { (*ctx.pick(&["alice", "bob", "O'Hara", "\u{16c}l\u{e4}", "eve"])).to_string() }
}

/// how much of the optional metadata objects of this run have
#[derive(Clone, Debug)]
pub struct Meta {
    /// 0: nothing, 1: everything, 2: anything per object
    pub mode: usize,
    pub deleted: bool,
    pub no_pos: bool,
}

impl Meta {
    pub fn draw(ctx: &Ctx) -> Meta {
        Meta { mode: *ctx.pick(&[2usize, 1, 2, 0]), deleted: ctx.chance(1, 2), no_pos: ctx.chance(1, 3) }
    }
}

/// an object for the XML formats and the writers
pub fn object(ctx: &Ctx, kind: Kind, oid: i64, chars: Chars, meta: &Meta) -> MObj {
    let mut o = MObj::new(kind, oid);
    let has = |p: u64| match meta.mode {
        0 => false,
        1 => true,
        _ => ctx.chance(p, 4),
    };
    if has(3) {
        o.version = Some(u31(ctx));
    }
    if has(3) {
        o.changeset = Some(changeset_id(ctx));
    }
    if has(3) {
        o.ts = Some(ts(ctx));
    }
    if has(3) {
        o.uid = Some(if ctx.chance(1, 16) { u32::MAX - ctx.us(3) as u32 } else { u31(ctx) });
    }
    if has(3) {
        o.user = Some(user(ctx, chars));
    }
    o.deleted = meta.deleted && ctx.chance(1, 4);
    match kind {
        Kind::Node => {
            if !(meta.no_pos && ctx.chance(1, 3)) {
                o.pos = Some((lat(ctx), lon(ctx)));
            }
        }
        Kind::Way => o.nodes = refs(ctx, 40),
        Kind::Rel => o.members = members(ctx, chars, 20),
    }
    o.tags = tags(ctx, chars, 12);
    o
}

pub fn ts(ctx: &Ctx) -> Ts {
    let t = epoch(ctx);
    if ctx.chance(1, 2) { Ts::Epoch(t) } else { Ts::Iso(iso_of(t)) }
}

pub fn kind(ctx: &Ctx) -> Kind {
    *ctx.pick(&[Kind::Node, Kind::Way, Kind::Rel])
}

/// 0..=max, small numbers most often
pub fn count(ctx: &Ctx, max: u64) -> u64 {
    match ctx.weighted(&[5, 3, 1]) {
        0 => ctx.range(1, 4.min(max)),
        1 => ctx.range(0, max / 3),
        _ => ctx.range(0, max),
    }
}

pub fn objects(ctx: &Ctx, max: u64, chars: Chars) -> Vec<MObj> {
    let meta = Meta::draw(ctx);
    let n = count(ctx, max);
    let only = if ctx.chance(1, 5) { Some(kind(ctx)) } else { None };
    let mut objs: Vec<MObj> = Vec::new();
    for _ in 0..n {
        let o = match objs.last() {
            Some(last) if ctx.chance(1, 30) => last.clone(),
            _ => {
                let k = only.unwrap_or_else(|| kind(ctx));
                let i = id(ctx);
                object(ctx, k, i, chars, &meta)
            }
        };
        objs.push(o);
    }
    objs
}
