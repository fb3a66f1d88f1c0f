//! The reference model: what an object *is*, independent of how the library stores it.
use osmio::prelude::*;
use osmio::{Lat, Lon, TimestampFormat};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Node,
    Way,
    Rel,
}

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Node => "node",
            Kind::Way => "way",
            Kind::Rel => "relation",
        }
    }
    pub fn of(t: OSMObjectType) -> Kind {
        match t {
            OSMObjectType::Node => Kind::Node,
            OSMObjectType::Way => Kind::Way,
            OSMObjectType::Relation => Kind::Rel,
        }
    }
    pub fn osm(self) -> OSMObjectType {
        match self {
            Kind::Node => OSMObjectType::Node,
            Kind::Way => OSMObjectType::Way,
            Kind::Rel => OSMObjectType::Relation,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ts {
    Epoch(i64),
    Iso(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct MObj {
    pub kind: Kind,
    pub id: i64,
    pub version: Option<u32>,
    pub deleted: bool,
    pub changeset: Option<u32>,
    pub ts: Option<Ts>,
    pub uid: Option<u32>,
    pub user: Option<String>,
    pub tags: Vec<(String, String)>,
    pub pos: Option<(i32, i32)>,
    pub nodes: Vec<i64>,
    pub members: Vec<(Kind, i64, String)>,
}

impl MObj {
    pub fn new(kind: Kind, id: i64) -> MObj {
        MObj {
            kind,
            id,
            version: None,
            deleted: false,
            changeset: None,
            ts: None,
            uid: None,
            user: None,
            tags: vec![],
            pos: None,
            nodes: vec![],
            members: vec![],
        }
    }
    pub fn short(&self) -> String {
        format!("{}{}", &self.kind.name()[..1], self.id)
    }
    pub fn set_tag(&mut self, k: &str, v: &str) {
        match self.tags.iter_mut().find(|(a, _)| a == k) {
            Some(e) => e.1 = v.to_string(),
            None => self.tags.push((k.to_string(), v.to_string())),
        }
    }
    pub fn unset_tag(&mut self, k: &str) {
        if let Some(i) = self.tags.iter().position(|(a, _)| a == k) {
            self.tags.remove(i);
        }
    }
}

/// days since 1970-01-01 of a civil date (own code, not the library's)
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn iso_of(t: i64) -> String {
    let days = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}Z", s / 3600, s / 60 % 60, s % 60)
}

/// only the plain forms YYYY-MM-DDTHH:MM:SS(Z|+00:00)
pub fn parse_iso(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() < 20 || !s.is_ascii() {
        return None;
    }
    let tail = &s[19..];
    if tail != "Z" && tail != "+00:00" {
        return None;
    }
    if b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' {
        return None;
    }
    let n = |r: std::ops::Range<usize>| s[r].parse::<i64>().ok();
    Some(days_from_civil(n(0..4)?, n(5..7)?, n(8..10)?) * 86400 + n(11..13)? * 3600 + n(14..16)? * 60 + n(17..19)?)
}

pub fn ts_eq(a: &Ts, b: &Ts) -> bool {
    match (a, b) {
        (Ts::Epoch(a), Ts::Epoch(b)) => a == b,
        (Ts::Iso(a), Ts::Iso(b)) => a == b || (parse_iso(a).is_some() && parse_iso(a) == parse_iso(b)),
        (Ts::Epoch(a), Ts::Iso(b)) | (Ts::Iso(b), Ts::Epoch(a)) => parse_iso(b) == Some(*a),
    }
}

fn sorted(t: &[(String, String)]) -> Vec<&(String, String)> {
    let mut v: Vec<_> = t.iter().collect();
    v.sort();
    v
}

/// None if equal, else what differs
pub fn diff(want: &MObj, got: &MObj) -> Option<String> {
    macro_rules! cmp {
        ($f:ident) => {
            if want.$f != got.$f {
                return Some(format!("{}: {} should be {:?} but is {:?}", want.short(), stringify!($f), want.$f, got.$f));
            }
        };
    }
    cmp!(kind);
    cmp!(id);
    cmp!(version);
    cmp!(deleted);
    cmp!(changeset);
    cmp!(uid);
    // an anonymous user may be reported as absent or as the empty name
    if want.user.as_deref().unwrap_or("") != got.user.as_deref().unwrap_or("") || (want.user.is_none() && got.user.is_some()) {
        return Some(format!("{}: user should be {:?} but is {:?}", want.short(), want.user, got.user));
    }
    match (&want.ts, &got.ts) {
        (None, None) => {}
        (Some(a), Some(b)) if ts_eq(a, b) => {}
        (a, b) => return Some(format!("{}: timestamp should be {a:?} but is {b:?}", want.short())),
    }
    cmp!(pos);
    cmp!(nodes);
    cmp!(members);
    if sorted(&want.tags) != sorted(&got.tags) {
        return Some(format!("{}: tags should be {:?} but are {:?}", want.short(), want.tags, got.tags));
    }
    None
}

/// `got` must be exactly `want`
pub fn diff_all(want: &[MObj], got: &[MObj]) -> Option<String> {
    if let Some(d) = diff_prefix(want, got) {
        return Some(d);
    }
    if got.len() < want.len() {
        return Some(format!("{} of {} objects are missing, the first is {}", want.len() - got.len(), want.len(), want[got.len()].short()));
    }
    None
}

/// `got` must be a prefix of `want`
pub fn diff_prefix(want: &[MObj], got: &[MObj]) -> Option<String> {
    for (i, g) in got.iter().enumerate() {
        match want.get(i) {
            None => return Some(format!("object {i} ({}) is one too many", g.short())),
            Some(w) => {
                if let Some(d) = diff(w, g) {
                    return Some(format!("object {i}: {d}"));
                }
            }
        }
    }
    None
}

pub fn ts_of(t: &Option<TimestampFormat>) -> Option<Ts> {
    t.as_ref().map(|t| match t {
        TimestampFormat::EpochNumber(n) => Ts::Epoch(*n),
        TimestampFormat::ISOString(s) => Ts::Iso(s.clone()),
    })
}

fn base<O: OSMObjBase>(o: &O, kind: Kind) -> Result<MObj, String> {
    let tags: Vec<(String, String)> = o.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let who = format!("{}{}", kind.name(), o.id());
    if o.tags().len() != tags.len() || o.num_tags() != tags.len() {
        return Err(format!("{who}: tags() has {} entries but len() says {} and num_tags() {}", tags.len(), o.tags().len(), o.num_tags()));
    }
    if o.untagged() != tags.is_empty() || o.tagged() == tags.is_empty() {
        return Err(format!("{who}: tagged()/untagged() disagree with tags() {tags:?}"));
    }
    // not all of very many
    let step = 1 + tags.len() / 200;
    for (k, _) in tags.iter().step_by(step).chain(tags.last()) {
        let first = &tags.iter().find(|(a, _)| a == k).unwrap().1;
        if o.tag(k) != Some(first.as_str()) || !o.has_tag(k) {
            return Err(format!("{who}: tag({k:?}) is {:?} but tags() has {first:?}", o.tag(k)));
        }
    }
    if o.id() % 4 == 0 && tags.len() < 1000 {
        let text = o.tags_json_string();
        let json: serde_json::Map<String, serde_json::Value> = serde_json::from_str(&text).map_err(|e| format!("{who}: tags_json_string: {e}"))?;
        let has = |k: &str| json.get(k).and_then(|v| v.as_str()).is_some_and(|v| tags.iter().any(|(a, b)| a == k && b == v));
        if json.keys().any(|k| !has(k)) || tags.iter().any(|(k, _)| !has(k)) {
            return Err(format!("{who}: tags_json_string is {text} for {tags:?}"));
        }
    }
    if Kind::of(o.object_type()) != kind {
        return Err(format!("{who}: object_type is {:?}", o.object_type()));
    }
    let absent = "no such key \u{1F5FF}";
    if o.tag(absent).is_some() || o.has_tag(absent) {
        return Err(format!("{who}: tag() of an absent key"));
    }
    Ok(MObj {
        kind,
        id: o.id(),
        version: o.version(),
        deleted: o.deleted(),
        changeset: o.changeset_id(),
        ts: ts_of(o.timestamp()),
        uid: o.uid(),
        user: o.user().map(|s| s.to_string()),
        tags,
        pos: None,
        nodes: vec![],
        members: vec![],
    })
}

pub fn from_node<N: Node>(n: &N) -> Result<MObj, String> {
    let mut m = base(n, Kind::Node)?;
    m.pos = n.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
    if n.has_lat_lon() != m.pos.is_some() {
        return Err(format!("node {}: has_lat_lon disagrees with lat_lon", m.id));
    }
    match (n.lat_lon_f64(), m.pos) {
        (None, None) => {}
        (Some((a, b)), Some((x, y))) if (a * 1e7 - x as f64).abs() < 0.01 && (b * 1e7 - y as f64).abs() < 0.01 => {}
        (a, b) => return Err(format!("node {}: lat_lon_f64 is {a:?} but lat_lon is {b:?}", m.id)),
    }
    Ok(m)
}

pub fn from_way<W: Way>(w: &W) -> Result<MObj, String> {
    let mut m = base(w, Kind::Way)?;
    m.nodes = w.nodes().to_vec();
    let n = m.nodes.len();
    if w.nids() != w.nodes() || w.num_nodes() != n || w.node(n).is_some() || (0..n).any(|i| w.node(i) != Some(m.nodes[i])) {
        return Err(format!("way {}: nids/num_nodes/node(i) disagree with nodes()", m.id));
    }
    if w.is_closed() != (n > 0 && m.nodes[0] == m.nodes[n - 1]) {
        return Err(format!("way {}: is_closed is {} for {:?}", m.id, w.is_closed(), m.nodes));
    }
    let area = m.tags.iter().find(|(k, _)| k == "area").map(|(_, v)| v.as_str());
    if w.is_area() != (w.is_closed() && area != Some("no")) {
        return Err(format!("way {}: is_area is {} with tags {:?}", m.id, w.is_area(), m.tags));
    }
    Ok(m)
}

pub fn from_rel<R: Relation>(r: &R) -> Result<MObj, String> {
    let mut m = base(r, Kind::Rel)?;
    m.members = r.members().map(|(t, i, s)| (Kind::of(t), i, s.to_string())).collect();
    if r.members().len() != m.members.len() {
        return Err(format!("relation {}: members().len() is {} but there are {}", m.id, r.members().len(), m.members.len()));
    }
    Ok(m)
}

/// The model of a library object; Err if its accessors contradict each other.
pub fn extract<O: OSMObj>(o: &O) -> Result<MObj, String> {
    let kind = Kind::of(o.object_type());
    let flags = (o.is_node(), o.is_way(), o.is_relation());
    let asx = (o.as_node().is_some(), o.as_way().is_some(), o.as_relation().is_some());
    let want = (kind == Kind::Node, kind == Kind::Way, kind == Kind::Rel);
    if flags != want || asx != want {
        return Err(format!("object {}: type {kind:?} but is_* {flags:?} and as_* {asx:?}", o.id()));
    }
    let m = match kind {
        Kind::Node => from_node(o.as_node().unwrap())?,
        Kind::Way => from_way(o.as_way().unwrap())?,
        Kind::Rel => from_rel(o.as_relation().unwrap())?,
    };
    let outer = base(o, kind)?;
    let mut m2 = m.clone();
    m2.pos = None;
    m2.nodes = vec![];
    m2.members = vec![];
    if outer != m2 {
        return Err(format!("{}: object and its inner {} disagree: {outer:?} / {m2:?}", m.short(), kind.name()));
    }
    Ok(m)
}

pub fn timestamp(t: &Ts) -> TimestampFormat {
    match t {
        Ts::Epoch(n) => TimestampFormat::EpochNumber(*n),
        Ts::Iso(s) => TimestampFormat::ISOString(s.clone()),
    }
}

fn fill<O: OSMObjBase>(o: &mut O, m: &MObj) {
    o.set_version(m.version);
    o.set_deleted(m.deleted);
    o.set_changeset_id(m.changeset);
    o.set_timestamp(m.ts.as_ref().map(timestamp));
    o.set_uid(m.uid);
    o.set_user(m.user.as_deref());
    for (k, v) in &m.tags {
        o.set_tag(k, v.clone());
    }
}

use osmio::obj_types::*;

/// a library object (owned strings) with exactly these contents
pub fn build(m: &MObj) -> StringOSMObj {
    match m.kind {
        Kind::Node => {
            let mut n = StringNodeBuilder::default()._id(m.id).build().unwrap();
            fill(&mut n, m);
            n.set_lat_lon_direct(m.pos.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b))));
            n.into()
        }
        Kind::Way => {
            let mut w = StringWayBuilder::default()._id(m.id).build().unwrap();
            fill(&mut w, m);
            w.set_nodes(m.nodes.iter().copied());
            w.into()
        }
        Kind::Rel => {
            let mut r = StringRelationBuilder::default()._id(m.id).build().unwrap();
            fill(&mut r, m);
            r.set_members(m.members.iter().map(|(k, i, s)| (k.osm(), *i, s.clone())));
            r.into()
        }
    }
}
