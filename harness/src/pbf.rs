//! An independent PBF encoder: writes files from the model, in every legal shape it can think of.
use std::cell::Cell;
use crate::ctx::Ctx;
use crate::generate::{self as mk, Chars};
use crate::model::{Kind, MObj, Ts};
use std::collections::HashMap;
use std::io::Write;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Comp {
    Raw,
    Zlib(u32),
    Lzma,
    Bzip2,
    Lz4,
    Zstd,
    Nothing,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub start: usize,
    pub end: usize,
    /// position of the first byte of the blob
    pub blob: usize,
    pub data: bool,
    pub first: usize,
    pub n: usize,
}

#[derive(Clone, Default)]
pub struct PbfFile {
    pub bytes: Vec<u8>,
    pub objs: Vec<MObj>,
    pub blocks: Vec<Block>,
}

#[derive(Clone)]
pub struct Opts {
    pub chars: Chars,
    pub max_blocks: u64,
    pub max_group: u64,
    pub big: bool,
    pub unknown_blobs: bool,
    /// contents of a data block that contradict each other
    pub lie: Option<Lie>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lie {
    FewerKeys,
    FewerVals,
    FewerRoles,
    FewerIds,
    FewerTypes,
    NoSuchString,
    FewerLats,
    FewerLons,
    KeyWithoutValue,
    MoreTags,
    FewerNodeIds,
    FewerVersions,
    FewerVisibles,
    FewerOthers,
    NoSuchType,
    NoSuchUser,
    NotUtf8,
    OutOfRange,
    Mixed,
    /// no lie, but the library does not know them
    PlainNodes,
}

impl Lie {
    pub fn draw(ctx: &Ctx) -> Lie {
        use Lie::*;
        *ctx.pick(&[
            FewerKeys, FewerVals, FewerRoles, FewerIds, FewerTypes, NoSuchString, FewerLats, FewerLons, KeyWithoutValue, MoreTags,
            FewerNodeIds, FewerVersions, FewerVisibles, FewerOthers, NoSuchType, NoSuchUser, NotUtf8,
            OutOfRange, Mixed, PlainNodes,
        ])
    }
    /// is it about ids and positions?
    pub fn positions(self) -> bool {
        matches!(self, Lie::FewerLats | Lie::FewerLons | Lie::FewerNodeIds | Lie::OutOfRange | Lie::Mixed | Lie::PlainNodes)
    }
    /// may a reader cope with it?
    pub fn readable(self) -> bool {
        matches!(self, Lie::Mixed | Lie::PlainNodes)
    }
}

impl Default for Opts {
    fn default() -> Self {
        Opts { chars: Chars::Any, max_blocks: 8, max_group: 20, big: true, unknown_blobs: true, lie: None }
    }
}

fn varint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
fn key(out: &mut Vec<u8>, field: u32, wire: u32) {
    varint(out, ((field << 3) | wire) as u64);
}
fn f_varint(out: &mut Vec<u8>, field: u32, v: u64) {
    key(out, field, 0);
    varint(out, v);
}
fn f_bytes(out: &mut Vec<u8>, field: u32, b: &[u8]) {
    key(out, field, 2);
    varint(out, b.len() as u64);
    out.extend_from_slice(b);
}

/// how repeated numbers are laid out
#[derive(Clone, Copy)]
enum Rep {
    Packed,
    Unpacked,
    Split,
}

fn f_rep(ctx: &Ctx, rep: Rep, out: &mut Vec<u8>, field: u32, vals: &[u64]) {
    if vals.is_empty() {
        return;
    }
    let packed = |out: &mut Vec<u8>, vals: &[u64]| {
        let mut b = Vec::new();
        for &v in vals {
            varint(&mut b, v);
        }
        f_bytes(out, field, &b);
    };
    match rep {
        Rep::Packed => packed(out, vals),
        Rep::Unpacked => {
            for &v in vals {
                f_varint(out, field, v);
            }
        }
        Rep::Split => {
            let at = ctx.us(vals.len());
            if at > 0 {
                packed(out, &vals[..at]);
            }
            packed(out, &vals[at..]);
        }
    }
}

fn deltas(v: impl Iterator<Item = i64>) -> Vec<u64> {
    let mut last = 0i64;
    v.map(|x| {
        let d = x - last;
        last = x;
        zz(d)
    })
    .collect()
}

struct Table {
    strs: Vec<Vec<u8>>,
    map: HashMap<String, usize>,
    dup: bool,
    empties: bool,
}

impl Table {
    fn idx(&mut self, ctx: &Ctx, s: &str, zero_ok: bool) -> u64 {
        if s.is_empty() && zero_ok && !self.empties {
            return 0;
        }
        if let Some(&i) = self.map.get(s) {
            if !self.dup || !ctx.chance(1, 3) {
                return i as u64;
            }
        }
        self.strs.push(s.as_bytes().to_vec());
        self.map.insert(s.to_string(), self.strs.len() - 1);
        (self.strs.len() - 1) as u64
    }
}

struct Params {
    gran: i64,
    lat_off: i64,
    lon_off: i64,
    dg: i64,
}

impl Params {
    fn draw(ctx: &Ctx) -> Params {
        let gran = *ctx.pick(&[100i64, 100, 100, 1, 10, 20, 50, 200, 1000, 10_000, 1_000_000]);
        let off = |lim: i64| match ctx.weighted(&[3, 2, 1]) {
            0 => 0,
            1 => {
                let unit = if gran < 100 { gran } else { 100 };
                (ctx.draw(lim as u64) as i64 - lim / 2) * unit
            }
            _ => {
                let v = *ctx.pick(&[100_000_000_000i64, -100_000_000_000, 3_000_000_000, -2_147_483_600, 4_294_967_300, 170_000_000_000]);
                if gran < 100 { v - v % 100 } else { v - v % 100 }
            }
        };
        let lat_off = off(1_000_000);
        let lon_off = off(1_000_000);
        let dg = *ctx.pick(&[1000i64, 1000, 1000, 1, 10, 100, 250, 500, 2000, 60_000]);
        Params { gran, lat_off, lon_off, dg }
    }
    /// (raw value in the file, position it stands for)
    fn pos(&self, p: i32, off: i64) -> (i64, i32) {
        let raw = (p as i64 * 100 - off).div_euclid(self.gran);
        let fit = |raw: i64| {
            let n = off + raw * self.gran;
            if n % 100 == 0 { i32::try_from(n / 100).ok() } else { None }
        };
        for r in [raw, raw + 1, raw - 1] {
            if let Some(q) = fit(r) {
                return (r, q);
            }
        }
        panic!("harness: position not representable: {p} {off} {}", self.gran)
    }
    fn time(&self, t: i64) -> (i64, i64) {
        let raw = t * 1000 / self.dg;
        let raw = if raw * self.dg % 1000 != 0 { raw - 1 } else { raw };
        (raw, raw * self.dg / 1000)
    }
}

#[derive(Clone)]
struct Cols {
    version: bool,
    ts: bool,
    changeset: bool,
    uid: bool,
    user: bool,
    visible: bool,
    any: bool,
}

impl Cols {
    fn draw(ctx: &Ctx) -> Cols {
        let mode = ctx.weighted(&[4, 2, 2, 2]);
        let c = |p: bool| match mode {
            0 => true,
            1 => false,
            2 => p,
            _ => ctx.chance(1, 2),
        };
        let mut x = Cols { version: c(true), ts: c(true), changeset: c(true), uid: c(true), user: c(true), visible: false, any: false };
        x.visible = if mode == 1 { ctx.chance(1, 8) } else { ctx.chance(1, 3) };
        x.any = x.version || x.ts || x.changeset || x.uid || x.user || x.visible;
        x
    }
}

fn meta(ctx: &Ctx, o: &mut MObj, c: &Cols, p: &Params, chars: Chars) {
    if c.version {
        o.version = Some(mk::u31(ctx));
    }
    if c.ts {
        o.ts = Some(Ts::Epoch(p.time(mk::epoch(ctx)).1));
    }
    if c.changeset {
        o.changeset = Some(mk::changeset_id(ctx));
    }
    if c.uid {
        o.uid = Some(mk::u31(ctx));
    }
    if c.user {
        o.user = Some(if ctx.chance(1, 10) { String::new() } else { mk::user(ctx, chars) });
    }
    if c.visible {
        o.deleted = ctx.chance(1, 3);
    }
}

fn epoch_of(o: &MObj) -> i64 {
    match o.ts {
        Some(Ts::Epoch(t)) => t,
        _ => panic!("harness: no epoch"),
    }
}

fn unknown_field(ctx: &Ctx, out: &mut Vec<u8>) {
    match ctx.us(3) {
        0 => f_bytes(out, 100, b"extension"),
        1 => f_varint(out, 101, 77),
        _ => {
            key(out, 102, 5);
            out.extend_from_slice(&[1, 2, 3, 4]);
        }
    }
}

struct Shape {
    rep: Rep,
    unknown: bool,
    kv_zeros: bool,
    lie: Cell<Option<Lie>>,
}

impl Shape {
    /// shortens the list, once, if it is the one to be short
    fn cut(&self, v: &mut Vec<u64>, l: Lie) {
        if !v.is_empty() && self.lie.get() == Some(l) {
            v.pop();
            self.lie.set(None);
        }
    }
    /// the same for a list which may be left out as a whole
    fn cut_some(&self, v: &mut Vec<u64>, l: Lie) {
        if v.len() > 1 {
            self.cut(v, l);
        }
    }
    fn strings(&self, v: &mut [u64], t: &mut Table) {
        if v.is_empty() {
            return;
        }
        match self.lie.get() {
            Some(Lie::NoSuchString) => v[0] = 1_000_000,
            Some(Lie::NotUtf8) if v[0] != 0 => t.strs[v[0] as usize].push(0xff),
            _ => return,
        }
        self.lie.set(None);
    }
    fn user(&self, v: u64) -> u64 {
        if self.lie.get() == Some(Lie::NoSuchUser) {
            self.lie.set(None);
            return 1_000_000;
        }
        v
    }
}

/// the metadata of an object which is not in a dense list
fn info(ctx: &Ctx, o: &MObj, p: &Params, c: &Cols, t: &mut Table, sh: &Shape) -> Option<Vec<u8>> {
    let has_meta = o.version.is_some() || o.ts.is_some() || o.changeset.is_some() || o.uid.is_some() || o.user.is_some();
    let say_visible = o.deleted || (c.visible && ctx.chance(1, 2));
    if !(has_meta || say_visible || ctx.chance(1, 6)) {
        return None;
    }
    let mut i = Vec::new();
    if let Some(v) = o.version {
        f_varint(&mut i, 1, v as u64);
    }
    if o.ts.is_some() {
        f_varint(&mut i, 2, (epoch_of(o) * 1000 / p.dg) as u64);
    }
    if let Some(v) = o.changeset {
        f_varint(&mut i, 3, v as u64);
    }
    if let Some(v) = o.uid {
        f_varint(&mut i, 4, v as u64);
    }
    if let Some(u) = &o.user {
        let u = t.idx(ctx, u, true);
        f_varint(&mut i, 5, sh.user(u));
    }
    if say_visible {
        f_varint(&mut i, 6, !o.deleted as u64);
    }
    if sh.unknown {
        unknown_field(ctx, &mut i);
    }
    Some(i)
}

/// one primitive group of objects of one kind
fn group(ctx: &Ctx, kind: Kind, objs: &[MObj], p: &Params, c: &Cols, t: &mut Table, sh: &Shape) -> Vec<u8> {
    let mut g = Vec::new();
    let (lat_raw, lon_raw) = (|o: &MObj| p.pos(o.pos.unwrap().0, p.lat_off).0, |o: &MObj| p.pos(o.pos.unwrap().1, p.lon_off).0);
    match kind {
        Kind::Node if !objs.is_empty() && sh.lie.get() == Some(Lie::PlainNodes) => {
            sh.lie.set(None);
            for o in objs {
                let mut m = Vec::new();
                f_varint(&mut m, 1, zz(o.id));
                let ks: Vec<u64> = o.tags.iter().map(|(k, _)| t.idx(ctx, k, true)).collect();
                let vs: Vec<u64> = o.tags.iter().map(|(_, v)| t.idx(ctx, v, true)).collect();
                f_rep(ctx, sh.rep, &mut m, 2, &ks);
                f_rep(ctx, sh.rep, &mut m, 3, &vs);
                if let Some(i) = info(ctx, o, p, c, t, sh) {
                    f_bytes(&mut m, 4, &i);
                }
                f_varint(&mut m, 8, zz(lat_raw(o)));
                f_varint(&mut m, 9, zz(lon_raw(o)));
                f_bytes(&mut g, 1, &m);
            }
        }
        Kind::Node => {
            let mut fields: Vec<Vec<u8>> = Vec::new();
            let mut add = |f: &dyn Fn(&mut Vec<u8>)| {
                let mut b = Vec::new();
                f(&mut b);
                fields.push(b);
            };
            let mut ids = deltas(objs.iter().map(|o| o.id));
            sh.cut(&mut ids, Lie::FewerNodeIds);
            add(&|b| f_rep(ctx, sh.rep, b, 1, &ids));
            if c.any || ctx.chance(1, 4) {
                let mut di = Vec::new();
                if c.version {
                    let mut v: Vec<u64> = objs.iter().map(|o| o.version.unwrap() as u64).collect();
                    sh.cut_some(&mut v, Lie::FewerVersions);
                    f_rep(ctx, sh.rep, &mut di, 1, &v);
                }
                if c.ts {
                    let mut v = deltas(objs.iter().map(|o| epoch_of(o) * 1000 / p.dg));
                    sh.cut_some(&mut v, Lie::FewerOthers);
                    f_rep(ctx, sh.rep, &mut di, 2, &v);
                }
                if c.changeset {
                    let mut v = deltas(objs.iter().map(|o| o.changeset.unwrap() as i64));
                    sh.cut_some(&mut v, Lie::FewerOthers);
                    f_rep(ctx, sh.rep, &mut di, 3, &v);
                }
                if c.uid {
                    let mut v = deltas(objs.iter().map(|o| o.uid.unwrap() as i64));
                    sh.cut_some(&mut v, Lie::FewerOthers);
                    f_rep(ctx, sh.rep, &mut di, 4, &v);
                }
                if c.user {
                    let sids: Vec<i64> = objs.iter().map(|o| t.idx(ctx, o.user.as_ref().unwrap(), true) as i64).collect();
                    let mut v = deltas(sids.into_iter());
                    if let Some(x) = v.first_mut() {
                        *x = sh.user(*x);
                    }
                    sh.cut_some(&mut v, Lie::FewerOthers);
                    f_rep(ctx, sh.rep, &mut di, 5, &v);
                }
                if c.visible {
                    let mut v: Vec<u64> = objs.iter().map(|o| !o.deleted as u64).collect();
                    sh.cut_some(&mut v, Lie::FewerVisibles);
                    f_rep(ctx, sh.rep, &mut di, 6, &v);
                }
                if sh.unknown {
                    unknown_field(ctx, &mut di);
                }
                add(&|b| f_bytes(b, 5, &di));
            }
            let mut lats: Vec<i64> = objs.iter().map(lat_raw).collect();
            let mut lons: Vec<i64> = objs.iter().map(lon_raw).collect();
            if !objs.is_empty() && sh.lie.get() == Some(Lie::OutOfRange) {
                // farther away than 32 bits of 100 nanodegrees
                let v = if ctx.chance(1, 2) { &mut lats } else { &mut lons };
                let far = *ctx.pick(&[1i64 << 31, (1 << 32) + 5, 1 << 33, -(1 << 31) - 1000, -(1 << 32), 1 << 40]);
                let i = ctx.us(v.len());
                v[i] += far * 2 * 100 / p.gran;
                sh.lie.set(None);
            }
            let mut lats = deltas(lats.into_iter());
            let mut lons = deltas(lons.into_iter());
            sh.cut(&mut lats, Lie::FewerLats);
            sh.cut(&mut lons, Lie::FewerLons);
            add(&|b| f_rep(ctx, sh.rep, b, 8, &lats));
            add(&|b| f_rep(ctx, sh.rep, b, 9, &lons));
            if sh.kv_zeros || objs.iter().any(|o| !o.tags.is_empty()) {
                let mut kv = Vec::new();
                for o in objs {
                    for (k, v) in &o.tags {
                        kv.push(t.idx(ctx, k, false));
                        kv.push(t.idx(ctx, v, false));
                    }
                    kv.push(0);
                }
                if kv.first().is_some_and(|&x| x != 0) {
                    sh.strings(&mut kv, t);
                }
                if kv.len() >= 3 && kv[kv.len() - 2] != 0 && sh.lie.get() == Some(Lie::KeyWithoutValue) {
                    kv.truncate(kv.len() - 2);
                    sh.lie.set(None);
                }
                if sh.lie.get() == Some(Lie::MoreTags) && !kv.is_empty() {
                    match t.strs.len() {
                        1 => kv.push(0),
                        n => kv.extend([n as u64 - 1, n as u64 - 1, 0]),
                    }
                    sh.lie.set(None);
                }
                add(&|b| f_rep(ctx, sh.rep, b, 10, &kv));
            }
            if ctx.chance(1, 8) {
                fields.reverse();
            }
            let mut d: Vec<u8> = fields.concat();
            if sh.unknown {
                unknown_field(ctx, &mut d);
            }
            f_bytes(&mut g, 2, &d);
        }
        Kind::Way | Kind::Rel => {
            for o in objs {
                let mut fields: Vec<Vec<u8>> = Vec::new();
                let mut b = Vec::new();
                f_varint(&mut b, 1, o.id as u64);
                fields.push(std::mem::take(&mut b));
                let mut ks: Vec<u64> = o.tags.iter().map(|(k, _)| t.idx(ctx, k, true)).collect();
                let mut vs: Vec<u64> = o.tags.iter().map(|(_, v)| t.idx(ctx, v, true)).collect();
                sh.cut(&mut ks, Lie::FewerKeys);
                sh.cut(&mut vs, Lie::FewerVals);
                sh.strings(&mut vs, t);
                f_rep(ctx, sh.rep, &mut b, 2, &ks);
                fields.push(std::mem::take(&mut b));
                f_rep(ctx, sh.rep, &mut b, 3, &vs);
                fields.push(std::mem::take(&mut b));
                if let Some(i) = info(ctx, o, p, c, t, sh) {
                    f_bytes(&mut b, 4, &i);
                    fields.push(std::mem::take(&mut b));
                }
                if kind == Kind::Way {
                    f_rep(ctx, sh.rep, &mut b, 8, &deltas(o.nodes.iter().copied()));
                    fields.push(std::mem::take(&mut b));
                    if sh.unknown {
                        // the widespread "locations on ways" extension
                        f_rep(ctx, Rep::Packed, &mut b, 9, &vec![zz(5); o.nodes.len()]);
                        f_rep(ctx, Rep::Packed, &mut b, 10, &vec![zz(-5); o.nodes.len()]);
                        fields.push(std::mem::take(&mut b));
                    }
                } else {
                    let mut roles: Vec<u64> = o.members.iter().map(|m| t.idx(ctx, &m.2, true)).collect();
                    let mut ids = deltas(o.members.iter().map(|m| m.1));
                    let mut types: Vec<u64> = o.members.iter().map(|m| m.0 as u64).collect();
                    sh.cut(&mut roles, Lie::FewerRoles);
                    sh.cut(&mut ids, Lie::FewerIds);
                    sh.cut(&mut types, Lie::FewerTypes);
                    if !types.is_empty() && sh.lie.get() == Some(Lie::NoSuchType) {
                        let i = ctx.us(types.len());
                        types[i] = *ctx.pick(&[3u64, 4, 100, 0xffff_ffff_ffff_ffff]);
                        sh.lie.set(None);
                    }
                    sh.strings(&mut roles, t);
                    f_rep(ctx, sh.rep, &mut b, 8, &roles);
                    fields.push(std::mem::take(&mut b));
                    f_rep(ctx, sh.rep, &mut b, 9, &ids);
                    fields.push(std::mem::take(&mut b));
                    f_rep(ctx, sh.rep, &mut b, 10, &types);
                    fields.push(std::mem::take(&mut b));
                }
                if ctx.chance(1, 16) {
                    fields.reverse();
                }
                let mut m = fields.concat();
                if sh.unknown {
                    unknown_field(ctx, &mut m);
                }
                f_bytes(&mut g, if kind == Kind::Way { 3 } else { 4 }, &m);
            }
        }
    }
    g
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// Appends one file block; returns where the blob starts
fn put_block(ctx: &Ctx, file: &mut Vec<u8>, typ: &str, comp: Comp, raw: &[u8], given: Option<Vec<u8>>) -> usize {
    let (field, mut payload): (u32, Vec<u8>) = match comp {
        Comp::Raw => (1, raw.to_vec()),
        Comp::Zlib(l) => (3, zlib(raw, l)),
        Comp::Lzma => (4, fake(raw)),
        Comp::Bzip2 => (5, {
            let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::fast());
            e.write_all(raw).unwrap();
            e.finish().unwrap()
        }),
        Comp::Lz4 => (6, fake(raw)),
        Comp::Zstd => (7, fake(raw)),
        Comp::Nothing => (0, vec![]),
    };
    if let Some(g) = given {
        payload = g;
    }
    let mut size = Vec::new();
    let say = match comp {
        Comp::Raw => ctx.chance(1, 4),
        Comp::Nothing => ctx.chance(1, 2),
        Comp::Zlib(_) => !ctx.chance(1, 12),
        _ => true,
    };
    if say {
        f_varint(&mut size, 2, raw.len() as u64);
    }
    let size_last = ctx.chance(1, 4);
    let mut blob = Vec::new();
    if !size_last {
        blob.extend_from_slice(&size);
    }
    if field != 0 {
        f_bytes(&mut blob, field, &payload);
    }
    if size_last {
        blob.extend_from_slice(&size);
    }
    if ctx.chance(1, 16) {
        unknown_field(ctx, &mut blob);
    }
    let mut h = Vec::new();
    let idx = ctx.chance(1, 8);
    let swap = ctx.chance(1, 8);
    if swap {
        f_varint(&mut h, 3, blob.len() as u64);
    }
    f_bytes(&mut h, 1, typ.as_bytes());
    if idx {
        // a header may have up to 32 KiB
        let n = if ctx.huge(4) { *ctx.pick(&[1_100usize, 4_100, 16_400, 32_000]) } else { *ctx.pick(&[0usize, 5, 300]) };
        f_bytes(&mut h, 2, &vec![7u8; n]);
    }
    if !swap {
        f_varint(&mut h, 3, blob.len() as u64);
    }
    if ctx.chance(1, 16) {
        unknown_field(ctx, &mut h);
    }
    file.extend_from_slice(&(h.len() as u32).to_be_bytes());
    file.extend_from_slice(&h);
    let start = file.len();
    file.extend_from_slice(&blob);
    start
}

/// stands for data in a compression the library does not have
fn fake(raw: &[u8]) -> Vec<u8> {
    let mut v = vec![0xfd, b'7', b'z'];
    v.extend_from_slice(raw);
    v
}

pub fn header_block(ctx: &Ctx) -> Vec<u8> {
    let mut h = Vec::new();
    if ctx.chance(1, 2) {
        let mut bb = Vec::new();
        for f in 1..5 {
            f_varint(&mut bb, f, zz(f as i64 * 1_000_000_000));
        }
        f_bytes(&mut h, 1, &bb);
    }
    f_bytes(&mut h, 4, b"OsmSchema-V0.6");
    f_bytes(&mut h, 4, b"DenseNodes");
    if ctx.chance(1, 2) {
        f_bytes(&mut h, 16, b"osmsim");
    }
    h
}

fn pbf_object(ctx: &Ctx, kind: Kind, c: &Cols, p: &Params, o: &Opts) -> MObj {
    let mut m = MObj::new(kind, mk::id(ctx));
    match kind {
        Kind::Node => {
            let lat = p.pos(mk::lat(ctx), p.lat_off).1;
            let lon = p.pos(mk::lon(ctx), p.lon_off).1;
            m.pos = Some((lat, lon));
        }
        Kind::Way => m.nodes = mk::refs(ctx, 40),
        Kind::Rel => m.members = mk::members(ctx, o.chars, 20),
    }
    m.tags = mk::tags(ctx, o.chars, 12);
    if kind == Kind::Node {
        meta(ctx, &mut m, c, p, o.chars);
    } else {
        // per object
        let keep = |x: bool| x && !ctx.chance(1, 12);
        let mut cc = c.clone();
        cc.version = keep(c.version);
        cc.ts = keep(c.ts);
        cc.changeset = keep(c.changeset);
        cc.uid = keep(c.uid);
        cc.user = keep(c.user);
        meta(ctx, &mut m, &cc, p, o.chars);
    }
    m
}

/// one data block: its decompressed bytes and its objects
pub fn data_block(ctx: &Ctx, o: &Opts) -> (Vec<u8>, Vec<MObj>) {
    let (raw, objs, _) = lying_block(ctx, o);
    (raw, objs)
}

/// the same, and whether the lie found its place
pub fn lying_block(ctx: &Ctx, o: &Opts) -> (Vec<u8>, Vec<MObj>, bool) {
    let p = Params::draw(ctx);
    let mut t = Table { strs: vec![vec![]], map: HashMap::new(), dup: ctx.chance(1, 6), empties: ctx.chance(1, 4) };
    if ctx.chance(1, 6) {
        // where the numbers of strings get longer
        let n = match if ctx.huge(12) { ctx.weighted(&[0, 0, 2, 1]) } else { ctx.weighted(&[3, 1]) } {
            0 => ctx.us(200),
            1 => *ctx.pick(&[100usize, 120, 127, 250, 255]),
            2 => *ctx.pick(&[16_380usize, 32_760]),
            _ => *ctx.pick(&[65_500usize, 65_534, 70_000]),
        };
        for i in 0..n {
            t.strs.push(format!("unused{i}").into_bytes());
        }
        ctx.probe_if(n > 60_000, "pbf_over_65536_strings");
    }
    if o.big && ctx.huge(3000) {
        // a block may have up to 32 MiB
        let n = *ctx.pick(&[1_100_000usize, 4_200_000, 8_400_000, 16_800_000, 33_000_000]);
        t.strs.push(vec![b'x'; n]);
        ctx.probe_if(n > 16_000_000, "pbf_block_over_16_mib");
    }
    let sh = Shape {
        rep: *ctx.pick(&[Rep::Packed, Rep::Packed, Rep::Packed, Rep::Unpacked, Rep::Split]),
        unknown: ctx.chance(1, 8),
        kv_zeros: ctx.chance(1, 3),
        lie: Cell::new(o.lie),
    };
    let ngroups = match ctx.weighted(&[6, 3, 1]) {
        0 => 1,
        1 => ctx.range(1, 4),
        _ => 0,
    };
    let mut objs = Vec::new();
    let mut groups = Vec::new();
    let mut sizes = Vec::new();
    for _ in 0..ngroups {
        let k = mk::kind(ctx);
        let c = Cols::draw(ctx);
        let n = if ctx.chance(1, 12) { 0 } else { mk::count(ctx, o.max_group) };
        let mut g: Vec<MObj> = (0..n).map(|_| pbf_object(ctx, k, &c, &p, o)).collect();
        if !g.is_empty() && ctx.chance(1, 12) {
            // an object twice in a row
            let i = ctx.us(g.len());
            g.insert(i, g[i].clone());
            ctx.probe("pbf_repeated_object");
        }
        if o.big && ctx.chance(1, 24) && !g.is_empty() {
            match ctx.us(3) {
                0 => {
                    let len = mk::big_len(ctx);
                    let s = mk::big_text(ctx, len);
                    let i = ctx.us(g.len());
                    g[i].tags.retain(|(k, _)| k != "big");
                    g[i].tags.push(("big".into(), s));
                }
                1 => {
                    // many plain copies
                    let m = match if ctx.huge(3) { ctx.weighted(&[0, 4, 1]) } else { 0 } {
                        0 => *ctx.pick(&[300usize, 1000, 3000]),
                        1 => *ctx.pick(&[7999usize, 8000, 8192, 16_001]),
                        _ => *ctx.pick(&[33_000usize, 66_000]),
                    };
                    let mut proto = g[0].clone();
                    proto.tags.truncate(20);
                    proto.nodes.truncate(20);
                    proto.members.truncate(20);
                    proto.tags.retain(|(k, v)| k.len() + v.len() < 100);
                    for j in 0..m {
                        let mut x = proto.clone();
                        x.id = 1_000_000 + j as i64 * 3;
                        if k != Kind::Node || j % 5 != 0 {
                            x.tags = vec![];
                        }
                        g.push(x);
                    }
                }
                _ => {
                    let mut r = ctx.subrng();
                    let m = match if ctx.huge(3) { ctx.weighted(&[0, 4, 1]) } else { 0 } {
                        0 => *ctx.pick(&[300usize, 2000]),
                        1 => *ctx.pick(&[8000usize, 16_000, 33_000]),
                        _ => 66_000,
                    };
                    match k {
                        Kind::Way => g[0].nodes = (0..m).map(|_| r.below(1 << 40) as i64).collect(),
                        Kind::Rel => g[0].members = (0..m).map(|j| ([Kind::Node, Kind::Way, Kind::Rel][j % 3], r.below(1 << 40) as i64, format!("r{}", j % 7))).collect(),
                        Kind::Node => {}
                    }
                }
            }
            ctx.probe("pbf_big_block");
        }
        let bytes = if g.is_empty() && k == Kind::Node && ctx.chance(1, 2) {
            vec![] // a group message with nothing in it
        } else if g.is_empty() && ctx.chance(1, 4) {
            // a group of changesets only
            let mut cs = Vec::new();
            f_varint(&mut cs, 1, 5);
            let mut b = Vec::new();
            f_bytes(&mut b, 5, &cs);
            b
        } else {
            let mut b = group(ctx, k, &g, &p, &c, &mut t, &sh);
            if !g.is_empty() && sh.lie.get() == Some(Lie::Mixed) {
                // objects of another kind in the same group
                sh.lie.set(None);
                let k2 = *ctx.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
                if k2 != k {
                    let m: Vec<MObj> = (0..ctx.range(1, 3)).map(|_| pbf_object(ctx, k2, &c, &p, o)).collect();
                    b.extend(group(ctx, k2, &m, &p, &c, &mut t, &sh));
                    g.extend(m);
                    g.sort_by_key(|o| o.kind as u8);
                }
            }
            b
        };
        ctx.probe_if(g.is_empty(), "pbf_empty_group");
        ctx.probe_if(!g.is_empty() && !c.any, "pbf_no_metadata");
        ctx.probe_if(k == Kind::Node && !g.is_empty() && g.iter().all(|x| x.tags.is_empty()) && !sh.kv_zeros, "pbf_no_keys_vals");
        groups.push(bytes);
        sizes.push(g.len());
        objs.extend(g);
    }
    if o.big && ngroups > 0 && objs.len() < 60 && groups.iter().map(|g| g.len()).sum::<usize>() < 1000 && ctx.huge(300) {
        // many groups, copies of these
        let firsts: Vec<usize> = sizes.iter().scan(0, |at, n| { *at += n; Some(*at - n) }).collect();
        let m = *ctx.pick(&[130usize, 260, 1030, 8200]);
        for j in 0..m {
            let i = j % ngroups as usize;
            groups.push(groups[i].clone());
            objs.extend_from_within(firsts[i]..firsts[i] + sizes[i]);
        }
        ctx.probe("pbf_many_groups");
    }
    ctx.probe_if(ngroups > 1, "pbf_multi_group");
    ctx.probe_if(ngroups == 0, "pbf_no_group");
    ctx.probe_if(p.gran != 100, "pbf_granularity");
    ctx.probe_if(p.lat_off != 0 || p.lon_off != 0, "pbf_offset");
    ctx.probe_if(p.dg != 1000, "pbf_date_granularity");
    let mut st = Vec::new();
    for s in &t.strs {
        f_bytes(&mut st, 1, s);
    }
    let mut parts: Vec<Vec<u8>> = Vec::new();
    let mut b = Vec::new();
    f_bytes(&mut b, 1, &st);
    parts.push(std::mem::take(&mut b));
    for g in groups {
        f_bytes(&mut b, 2, &g);
        parts.push(std::mem::take(&mut b));
    }
    let mut tail = Vec::new();
    let explicit = ctx.chance(1, 4);
    if p.gran != 100 || explicit {
        f_varint(&mut tail, 17, p.gran as u64);
    }
    if p.dg != 1000 || explicit {
        f_varint(&mut tail, 18, p.dg as u64);
    }
    if p.lat_off != 0 || explicit {
        f_varint(&mut tail, 19, p.lat_off as u64);
    }
    if p.lon_off != 0 || explicit {
        f_varint(&mut tail, 20, p.lon_off as u64);
    }
    if sh.unknown {
        unknown_field(ctx, &mut tail);
    }
    let raw = match ctx.weighted(&[6, 1, 1]) {
        0 => {
            let mut v = parts.concat();
            v.extend_from_slice(&tail);
            v
        }
        1 => {
            // parameters first
            let mut v = tail;
            v.extend(parts.concat());
            v
        }
        _ => {
            // string table last
            let st = parts.remove(0);
            let mut v = parts.concat();
            v.extend_from_slice(&tail);
            v.extend_from_slice(&st);
            v
        }
    };
    (raw, objs, o.lie.is_some() && sh.lie.get().is_none())
}

pub fn draw_comp(ctx: &Ctx) -> Comp {
    match ctx.weighted(&[4, 5]) {
        0 => Comp::Raw,
        _ => Comp::Zlib(*ctx.pick(&[6u32, 1, 9, 0])),
    }
}

impl PbfFile {
    pub fn push_data(&mut self, ctx: &Ctx, comp: Comp, raw: Vec<u8>, objs: Vec<MObj>, payload: Option<Vec<u8>>) {
        let start = self.bytes.len();
        let blob = put_block(ctx, &mut self.bytes, "OSMData", comp, &raw, payload);
        let first = self.objs.len();
        let n = objs.len();
        self.objs.extend(objs);
        self.blocks.push(Block { start, end: self.bytes.len(), blob, data: true, first, n });
    }
    pub fn push_other(&mut self, ctx: &Ctx, typ: &str, raw: Vec<u8>) {
        let start = self.bytes.len();
        let comp = draw_comp(ctx);
        let blob = put_block(ctx, &mut self.bytes, typ, comp, &raw, None);
        self.blocks.push(Block { start, end: self.bytes.len(), blob, data: false, first: self.objs.len(), n: 0 });
    }
    pub fn push_random(&mut self, ctx: &Ctx, o: &Opts) {
        if o.unknown_blobs && ctx.chance(1, 10) {
            let typ = *ctx.pick(&["OSMIndex", "x", "OSMDataX", "OSMdata", "OSMDat"]);
            let n = *ctx.pick(&[0usize, 20, 9000]);
            self.push_other(ctx, typ, vec![5u8; n]);
            ctx.probe("pbf_unknown_blob");
        }
        let (raw, objs) = data_block(ctx, o);
        let comp = draw_comp(ctx);
        self.push_data(ctx, comp, raw, objs, None);
    }
    /// the same block once more
    fn push_copy(&mut self, i: usize) {
        let mut b = self.blocks[i].clone();
        let objs = self.objs[b.first..b.first + b.n].to_vec();
        let at = self.bytes.len();
        self.bytes.extend_from_within(b.start..b.end);
        b.blob = at + (b.blob - b.start);
        b.start = at;
        b.end = self.bytes.len();
        b.first = self.objs.len();
        self.blocks.push(b);
        self.objs.extend(objs);
    }
    /// index of the block which holds object i
    pub fn block_of(&self, i: usize) -> usize {
        self.blocks.partition_point(|b| b.first + b.n <= i)
    }
    /// number of objects in the blocks which end at or before this byte
    pub fn complete_at(&self, byte: usize) -> usize {
        self.blocks.iter().filter(|b| b.end <= byte).map(|b| b.n).sum()
    }
    pub fn boundary(&self, byte: usize) -> bool {
        byte == 0 || self.blocks.iter().any(|b| b.end == byte)
    }
}

/// Appends a block in which one of the sizes claims far more than there is
pub fn push_claim(ctx: &Ctx, f: &mut PbfFile) {
    let o = Opts { max_group: 5, big: false, ..Opts::default() };
    let (mut raw, objs) = data_block(ctx, &o);
    let claim = *ctx.pick(&[0x7000_0000u64, 0x7fff_ffff, 0x3000_0000, 0xffff_ffff, 1 << 40, u64::MAX]);
    let what = ctx.us(5);
    let of = |w: usize, v: usize| if what == w { claim } else { v as u64 };
    if what == 4 {
        let mut lie = Vec::new();
        key(&mut lie, 1 + ctx.draw(2) as u32, 2);
        varint(&mut lie, claim);
        lie.append(&mut raw);
        raw = lie;
    }
    let comp = draw_comp(ctx);
    let (field, payload) = match comp {
        Comp::Raw => (1, raw.clone()),
        _ => (3, zlib(&raw, 6)),
    };
    let mut blob = Vec::new();
    f_varint(&mut blob, 2, of(0, raw.len()));
    key(&mut blob, field, 2);
    varint(&mut blob, of(3, payload.len()));
    blob.extend_from_slice(&payload);
    let mut h = Vec::new();
    f_bytes(&mut h, 1, b"OSMData");
    f_varint(&mut h, 3, of(1, blob.len()));
    let start = f.bytes.len();
    f.bytes.extend_from_slice(&(of(2, h.len()) as u32).to_be_bytes());
    f.bytes.extend_from_slice(&h);
    let at = f.bytes.len();
    f.bytes.extend_from_slice(&blob);
    f.blocks.push(Block { start, end: f.bytes.len(), blob: at, data: true, first: f.objs.len(), n: objs.len() });
    ctx.fault("claimed_size");
}

pub fn file(ctx: &Ctx, o: &Opts) -> PbfFile {
    let mut f = PbfFile::default();
    if !ctx.chance(1, 10) {
        let h = header_block(ctx);
        f.push_other(ctx, "OSMHeader", h);
    }
    let n = mk::count(ctx, o.max_blocks);
    for _ in 0..n {
        f.push_random(ctx, o);
        if o.lie.is_none() && ctx.chance(1, 20) {
            f.push_copy(f.blocks.len() - 1);
            ctx.probe("pbf_repeated_block");
        }
    }
    if o.big && ctx.huge(400) {
        // many small blocks
        let small = Opts { max_blocks: 0, max_group: 2, big: false, ..o.clone() };
        for _ in 0..*ctx.pick(&[130u64, 260, 1030]) {
            f.push_random(ctx, &small);
        }
        ctx.probe("pbf_many_blocks");
        if ctx.huge(8) {
            let copied: Vec<usize> = (0..f.blocks.len()).filter(|i| f.blocks[*i].n <= 2 && f.blocks[*i].end - f.blocks[*i].start < 300).collect();
            for j in 0..if copied.is_empty() { 0 } else { 66_000 } {
                f.push_copy(copied[j % copied.len()]);
            }
            ctx.probe("pbf_over_65536_blocks");
        }
    }
    if o.unknown_blobs && ctx.chance(1, 12) {
        f.push_other(ctx, "OSMTrailer", vec![1; 10]);
    }
    ctx.hash_bytes(&f.bytes);
    ctx.objects(f.objs.len());
    ctx.summary(|| {
        format!(
            "PBF {} bytes, {} blocks, {} objects",
            f.bytes.len(),
            f.blocks.len(),
            f.objs.len()
        )
    });
    f
}
