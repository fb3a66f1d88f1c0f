//! Generated XML documents: OSM XML, OSC and changeset dumps, in every legal shape.
use crate::ctx::Ctx;
use crate::generate::{self as mk, Chars, Meta};
use crate::model::{Kind, MObj, Ts, iso_of};
use std::io::Write;

/// Layout of the document
pub struct Style {
    squote: bool,
    shuffle: bool,
    /// how much white space
    space: usize,
    charrefs: bool,
    extras: bool,
    close_tags: bool,
}

impl Style {
    pub fn draw(ctx: &Ctx) -> Style {
        Style {
            squote: ctx.chance(1, 4),
            shuffle: ctx.chance(1, 3),
            space: ctx.us(4),
            charrefs: ctx.chance(1, 4),
            extras: ctx.chance(1, 3),
            close_tags: ctx.chance(1, 4),
        }
    }
}

pub fn attr_value(ctx: &Ctx, st: &Style, q: char, s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' if st.charrefs => out.push_str("&gt;"),
            '"' if q == '"' => out.push_str("&quot;"),
            '\'' if q == '\'' => out.push_str(if st.charrefs { "&#39;" } else { "&apos;" }),
            '"' if st.charrefs => out.push_str("&#34;"),
            '\'' if st.charrefs => out.push_str("&apos;"),
            '\n' | '\t' | '\r' => out.push_str(&format!("&#{};", c as u32)),
            c if st.charrefs && ctx.chance(1, 8) => {
                if ctx.chance(1, 2) {
                    out.push_str(&format!("&#x{:X};", c as u32))
                } else {
                    out.push_str(&format!("&#{};", c as u32))
                }
            }
            c => out.push(c),
        }
    }
    out
}

fn ws(ctx: &Ctx, st: &Style, depth: usize) -> String {
    match st.space {
        0 => format!("\n{}", "  ".repeat(depth)),
        1 => String::new(),
        2 => "\r\n\t".to_string(),
        _ => (*ctx.pick(&["\n", "", " ", "\n\n  ", "\t"])).to_string(),
    }
}

/// the text of a start tag without its end
fn open(ctx: &Ctx, st: &Style, name: &str, attrs: &[(&str, String)]) -> String {
    let q = if st.squote { '\'' } else { '"' };
    let mut order: Vec<usize> = (0..attrs.len()).collect();
    if st.shuffle {
        for i in (1..order.len()).rev() {
            order.swap(i, ctx.us(i + 1));
        }
    }
    let mut s = format!("<{name}");
    for i in order {
        let (k, v) = &attrs[i];
        let gap = if st.space == 3 { *ctx.pick(&[" ", "\n", "  ", " \t "]) } else { " " };
        let eq = if st.space == 3 { *ctx.pick(&["=", " =", "= "]) } else { "=" };
        s.push_str(gap);
        s.push_str(k);
        s.push_str(eq);
        s.push(q);
        s.push_str(&attr_value(ctx, st, q, v));
        s.push(q);
    }
    s
}

fn leaf(ctx: &Ctx, st: &Style, name: &str, attrs: &[(&str, String)]) -> String {
    let mut s = open(ctx, st, name, attrs);
    if st.close_tags {
        s.push_str(&format!("></{name}>"));
    } else if st.space == 2 {
        s.push_str(" />");
    } else {
        s.push_str("/>");
    }
    s
}

pub fn fixed7(ctx: &Ctx, v: i32) -> String {
    let neg = v < 0;
    let a = (v as i64).abs();
    let frac = format!("{:07}", a % 10_000_000);
    let mut s = format!("{}{}", if neg { "-" } else { "" }, a / 10_000_000);
    match ctx.weighted(&[6, 6, 6, 1, 1]) {
        0 => {
            let f = frac.trim_end_matches('0');
            if !f.is_empty() {
                s.push('.');
                s.push_str(f);
            }
        }
        1 => {
            s.push('.');
            s.push_str(&frac);
        }
        2 => {
            s.push('.');
            s.push_str(&frac);
            s.push_str("00");
        }
        3 => {
            // a binary fraction printed too exactly
            s.push('.');
            s.push_str(&frac);
            s.push_str("00000004");
        }
        _ => {
            // as Java prints small numbers
            s = format!("{:E}", v as f64 / 1e7);
        }
    }
    s
}

fn junk(ctx: &Ctx, out: &mut String) {
    out.push_str(*ctx.pick(&[
        "<!-- a comment with <node id=\"1\"/> inside -->",
        "<?pi some instruction?>",
        "<bounds minlat=\"1\" minlon=\"2\" maxlat=\"3\" maxlon=\"4\"/>",
        "<note>The data included in this document is from www.openstreetmap.org. &amp; more</note>",
        "<meta osm_base=\"2020-01-01T00:00:00Z\"/>",
        "<![CDATA[ <way id=\"2\"> ]]>",
        "<!---->",
        "<center lat=\"1\" lon=\"2\"/>",
        "<unknown><deep a=\"b\">text</deep></unknown>",
    ]));
}

/// junk which may stand inside an object
fn inner_junk(ctx: &Ctx, out: &mut String) {
    out.push_str(*ctx.pick(&["<!-- c -->", "<center lat=\"1\" lon=\"2\"/>", "<bounds minlat=\"1\"/>", "<?x y?>", "text", "<unknown k=\"a\" v=\"b\">t</unknown>", "<![CDATA[<tag k='x' v='y'/>]]>"]));
}

/// `visible`: write the attribute when it is not false?
pub fn object_xml(ctx: &Ctx, st: &Style, o: &MObj, delete_section: bool) -> String {
    let name = o.kind.name();
    let mut attrs: Vec<(&str, String)> = vec![("id", o.id.to_string())];
    if o.deleted {
        if !delete_section || ctx.chance(1, 2) {
            attrs.push(("visible", if delete_section && ctx.chance(1, 3) { "true".into() } else { "false".into() }));
        }
    } else if ctx.chance(1, 2) {
        attrs.push(("visible", "true".into()));
    }
    if let Some(v) = o.version {
        attrs.push(("version", v.to_string()));
    }
    if let Some(v) = o.changeset {
        attrs.push(("changeset", v.to_string()));
    }
    if let Some(t) = &o.ts {
        attrs.push((
            "timestamp",
            match t {
                Ts::Iso(s) => s.clone(),
                Ts::Epoch(n) => iso_of(*n),
            },
        ));
    }
    if let Some(u) = &o.user {
        attrs.push(("user", u.clone()));
    }
    if let Some(u) = o.uid {
        attrs.push(("uid", u.to_string()));
    }
    if let Some((a, b)) = o.pos {
        attrs.push(("lat", fixed7(ctx, a)));
        attrs.push(("lon", fixed7(ctx, b)));
    }
    if st.extras && ctx.chance(1, 4) {
        attrs.push(("action", "modify".into()));
    }
    // children: references keep their order, tags theirs, but they may be mixed
    let mut a: Vec<String> = match o.kind {
        Kind::Node => vec![],
        Kind::Way => o.nodes.iter().map(|n| leaf(ctx, st, "nd", &[("ref", n.to_string())])).collect(),
        Kind::Rel => o
            .members
            .iter()
            .map(|(k, i, r)| {
                let mut at = vec![("type", k.name().to_string()), ("ref", i.to_string())];
                if !r.is_empty() || !st.extras || ctx.chance(1, 2) {
                    at.push(("role", r.clone()));
                }
                leaf(ctx, st, "member", &at)
            })
            .collect(),
    };
    let mut b: Vec<String> = o.tags.iter().map(|(k, v)| leaf(ctx, st, "tag", &[("k", k.clone()), ("v", v.clone())])).collect();
    let mix = ctx.us(3);
    let mut kids: Vec<String> = Vec::new();
    match mix {
        0 => {
            kids.append(&mut a);
            kids.append(&mut b);
        }
        1 => {
            kids.append(&mut b);
            kids.append(&mut a);
        }
        _ => {
            let (mut i, mut j) = (a.into_iter().peekable(), b.into_iter().peekable());
            while i.peek().is_some() || j.peek().is_some() {
                let first = j.peek().is_none() || (i.peek().is_some() && ctx.chance(1, 2));
                kids.push(if first { i.next() } else { j.next() }.unwrap());
            }
        }
    }
    let mut s = open(ctx, st, name, &attrs);
    if kids.is_empty() && !ctx.chance(1, 3) {
        s.push_str(if st.space == 1 { "/>" } else { " />" });
        return s;
    }
    s.push('>');
    for k in kids {
        s.push_str(&ws(ctx, st, 2));
        if st.extras && ctx.chance(1, 8) {
            inner_junk(ctx, &mut s);
        }
        s.push_str(&k);
    }
    if st.extras && ctx.chance(1, 8) {
        inner_junk(ctx, &mut s);
    }
    s.push_str(&ws(ctx, st, 1));
    s.push_str(&format!("</{name}>"));
    s
}

#[derive(Clone, Default)]
pub struct Doc {
    pub bytes: Vec<u8>,
    pub objs: Vec<MObj>,
    /// (first byte, byte after the last) of every object
    pub spans: Vec<(usize, usize)>,
    /// byte after the root's end tag
    pub root_end: usize,
    /// first byte of the root element
    pub root_start: usize,
    /// byte after the root's start tag
    pub root_open: usize,
}

/// The document in another encoding, if it can be said in it. Offsets into the document are not right any more.
pub fn reencode(ctx: &Ctx, bytes: &[u8]) -> Option<Vec<u8>> {
    let text = std::str::from_utf8(bytes).ok()?;
    let text = text.strip_prefix('\u{feff}').unwrap_or(text);
    let declared = |name: &str| {
        let end = text.find("?>").unwrap_or(0);
        let (a, b) = text.split_at(end);
        a.replace("UTF-8", name).replace("utf-8", name) + b
    };
    let code = ctx.us(3);
    if code == 2 {
        let t = declared("ISO-8859-1");
        if !t.contains("ISO-8859-1") || t.chars().any(|c| c as u32 > 0xff) {
            return None;
        }
        ctx.probe("latin1");
        return Some(t.chars().map(|c| c as u8).collect());
    }
    ctx.probe("utf16");
    let t = format!("\u{feff}{}", declared("UTF-16"));
    Some(t.encode_utf16().flat_map(|u| if code == 0 { u.to_le_bytes() } else { u.to_be_bytes() }).collect())
}

fn prolog(ctx: &Ctx, st: &Style, s: &mut String) {
    if ctx.chance(1, 20) {
        s.push('\u{feff}');
    }
    match ctx.weighted(&[5, 2, 2, 1]) {
        0 => s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"),
        1 => s.push_str("<?xml version='1.0' encoding='utf-8'?>"),
        2 => {}
        _ => s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n"),
    }
    if st.extras && ctx.chance(1, 3) {
        s.push_str("<!-- before the root -->\n");
    }
    if ctx.chance(1, 20) {
        s.push_str(*ctx.pick(&["<!DOCTYPE osm>", "<!DOCTYPE osm SYSTEM \"osm.dtd\">\n", "<!DOCTYPE osm [<!-- nothing -->]>\n"]));
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Xml,
    Osc,
}

pub fn osm_doc(ctx: &Ctx, fmt: Fmt, max: u64) -> Doc {
    osm_doc_of(ctx, fmt, None, max)
}

/// objects given or generated
pub fn osm_doc_of(ctx: &Ctx, fmt: Fmt, given: Option<Vec<MObj>>, max: u64) -> Doc {
    let st = Style::draw(ctx);
    let meta = Meta::draw(ctx);
    let mut d = Doc::default();
    let mut s = String::new();
    prolog(ctx, &st, &mut s);
    d.root_start = s.len();
    let root = if fmt == Fmt::Xml { "osm" } else { "osmChange" };
    let mut attrs = vec![("version", "0.6".to_string())];
    if ctx.chance(1, 2) {
        attrs.push(("generator", mk::text(ctx, Chars::Xml)));
    }
    s.push_str(&open(ctx, &st, root, &attrs));
    s.push('>');
    d.root_open = s.len();
    let given = match given {
        None if ctx.huge(300) => Some(mk::small_objects(ctx, Chars::Xml)),
        g => g,
    };
    let total = match &given {
        Some(v) => v.len() as u64,
        None => mk::count(ctx, max),
    };
    let mut given = given.map(|v| v.into_iter());
    let mut left = total;
    let only = if ctx.chance(1, 6) { Some(mk::kind(ctx)) } else { None };
    let mut sections = 0;
    while left > 0 || (fmt == Fmt::Osc && sections < 3 && ctx.chance(1, 4)) {
        let (sec, n) = if fmt == Fmt::Osc { (*ctx.pick(&["modify", "create", "delete"]), if left == 0 { 0 } else { ctx.range(0, left.min(6)) }) } else { ("", left) };
        sections += 1;
        let n = if sections > 200 { left } else { n };
        if fmt == Fmt::Osc {
            s.push_str(&ws(ctx, &st, 0));
            // as Osmosis and JOSM write them
            let mut attrs: Vec<(&str, String)> = Vec::new();
            if st.extras && ctx.chance(1, 3) {
                if ctx.chance(1, 2) {
                    attrs.push(("if-unused", ctx.pick(&["true", "false", "", "yes"]).to_string()));
                    ctx.probe_if(sec == "delete", "delete_if_unused");
                }
                if ctx.chance(1, 2) {
                    attrs.push(("version", ctx.pick(&["0.3", "0.6"]).to_string()));
                    attrs.push(("generator", "Osmosis 0.48".to_string()));
                }
            }
            s.push_str(&open(ctx, &st, sec, &attrs));
            if n == 0 && ctx.chance(1, 2) {
                s.push_str("/>");
                continue;
            }
            s.push('>');
        }
        for _ in 0..n {
            let mut o = match &mut given {
                Some(it) => it.next().unwrap(),
                None => {
                    let k = only.unwrap_or_else(|| mk::kind(ctx));
                    let i = mk::id(ctx);
                    let mut o = match d.objs.last() {
                        Some(last) if ctx.chance(1, 30) => {
                            // the same once more
                            ctx.probe("repeated_object");
                            let mut o = last.clone();
                            o.deleted = false;
                            o
                        }
                        _ => mk::object(ctx, k, i, Chars::Xml, &meta),
                    };
                    if ctx.chance(1, 60) {
                        let len = if ctx.chance(1, 3) { *ctx.pick(&[8180usize, 8192, 40_000]) } else { mk::big_len(ctx) };
                        let big = mk::big_text(ctx, len);
                        o.tags.retain(|(k, _)| k != "big");
                        o.tags.push(("big".into(), big));
                        ctx.probe("xml_value_over_8k");
                    }
                    o
                }
            };
            if sec == "delete" {
                o.deleted = true;
            }
            if let Some(Ts::Epoch(t)) = o.ts {
                o.ts = Some(Ts::Iso(iso_of(t)));
            }
            s.push_str(&ws(ctx, &st, 1));
            if st.extras && ctx.chance(1, 6) {
                junk(ctx, &mut s);
            }
            let x = object_xml(ctx, &st, &o, sec == "delete");
            let a = s.len();
            s.push_str(&x);
            d.spans.push((a, s.len()));
            ctx.probe_if(o.kind == Kind::Node && o.pos.is_none(), "node_without_position");
            d.objs.push(o);
        }
        left -= n;
        if fmt == Fmt::Osc {
            s.push_str(&ws(ctx, &st, 0));
            s.push_str(&format!("</{sec}>"));
        }
    }
    s.push_str(&ws(ctx, &st, 0));
    s.push_str(&format!("</{root}>"));
    d.root_end = s.len();
    match ctx.us(4) {
        0 => s.push('\n'),
        1 => {}
        2 => s.push_str("\n\n  \n"),
        _ => {
            if st.extras {
                s.push_str("\n<!-- the end -->\n")
            }
        }
    }
    d.bytes = s.into_bytes();
    ctx.hash_bytes(&d.bytes);
    ctx.objects(d.objs.len());
    ctx.summary(|| format!("{fmt:?} {} bytes, {} objects", d.bytes.len(), d.objs.len()));
    d
}

/// One or several bzip2 streams. Returns (bytes, ends of the streams: in the file, in the data)
pub fn bz2(ctx: &Ctx, data: &[u8]) -> (Vec<u8>, Vec<(usize, usize)>) {
    let n = *ctx.pick(&[1usize, 1, 2, 3, 5]);
    let mut cuts: Vec<usize> = (1..n).map(|_| ctx.us(data.len() + 1)).collect();
    cuts.sort();
    cuts.push(data.len());
    let mut out = Vec::new();
    let mut ends = Vec::new();
    let mut last = 0;
    for c in cuts {
        let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(*ctx.pick(&[1u32, 9])));
        e.write_all(&data[last..c]).unwrap();
        out.extend(e.finish().unwrap());
        ends.push((out.len(), c));
        last = c;
    }
    ctx.probe_if(ends.len() > 1, "bz2_multi_stream");
    (out, ends)
}

#[derive(Clone, Debug, PartialEq)]
pub struct MChangeset {
    pub id: u32,
    pub created: String,
    pub closed: Option<String>,
    pub open: bool,
    pub uid: Option<i64>,
    pub user: Option<String>,
    pub num_changes: u64,
    pub comments: u64,
    pub tags: Vec<(String, String)>,
    /// written as <changeset .../>
    pub empty: bool,
    /// it has a child element
    pub content: bool,
}

#[derive(Clone, Default)]
pub struct CDoc {
    pub bytes: Vec<u8>,
    pub cs: Vec<MChangeset>,
    pub spans: Vec<(usize, usize)>,
    pub root_open: usize,
    pub root_end: usize,
}

pub fn changesets(ctx: &Ctx, max: u64) -> CDoc {
    let st = Style::draw(ctx);
    let mut d = CDoc::default();
    let mut s = String::new();
    prolog(ctx, &st, &mut s);
    s.push_str(&open(ctx, &st, "osm", &[("version", "0.6".into()), ("license", "http://opendatacommons.org/licenses/odbl/1-0/".into())]));
    s.push('>');
    d.root_open = s.len();
    if ctx.chance(1, 3) {
        s.push_str(&ws(ctx, &st, 1));
        s.push_str(&leaf(ctx, &st, "bound", &[("box", "-90,-180,90,180".into()), ("origin", "http://www.openstreetmap.org/api/0.6".into())]));
    }
    let long = ctx.huge(300);
    let pool: Vec<Vec<(String, String)>> = (0..if long { ctx.range(1, 4) } else { 0 })
        .map(|_| {
            let mut t = mk::tags(ctx, Chars::Xml, 2);
            t.truncate(3);
            t.retain(|(k, v)| k.len() + v.len() < 60);
            t
        })
        .collect();
    let n = if long { mk::long(ctx) } else { mk::count(ctx, max) };
    ctx.probe_if(long, "long_document");
    let mut next_id = match ctx.weighted(&[4, 1, 1]) {
        0 => 1u64,
        1 => ctx.draw(100_000_000),
        _ => u32::MAX as u64 - 200_000,
    };
    // dumps are sorted by id, but nothing depends on that
    let falling = !long && ctx.chance(1, 8);
    if falling {
        next_id += 100_000;
        ctx.probe("falling_ids");
    }
    for _ in 0..n {
        let id = next_id as u32;
        let step = 1 + if ctx.chance(1, 3) { ctx.draw(1000) } else { 0 };
        if falling {
            next_id -= step;
        } else {
            next_id += step;
        }
        let isopen = ctx.chance(1, 4);
        let anon = ctx.chance(1, 6);
        let c = MChangeset {
            id,
            created: iso_of(mk::epoch(ctx)),
            closed: if isopen && ctx.chance(1, 2) { None } else { Some(iso_of(mk::epoch(ctx))) },
            open: isopen,
            uid: if anon { None } else { Some(if ctx.chance(1, 16) { -1 } else { mk::u31(ctx) as i64 }) },
            user: if anon { None } else { Some(mk::user(ctx, Chars::Xml)) },
            num_changes: if ctx.chance(1, 8) { ctx.draw(1 << 40) } else { ctx.draw(10_000) },
            comments: if ctx.chance(1, 20) { ctx.draw(1 << 40) } else { ctx.draw(5) },
            tags: if long {
                pool[id as usize % pool.len()].clone()
            } else if ctx.chance(1, 50) {
                let n = mk::big_len(ctx);
                ctx.probe("changeset_value_over_8k");
                vec![("comment".into(), mk::big_text(ctx, n))]
            } else {
                mk::tags(ctx, Chars::Xml, 10)
            },
            empty: false,
            content: false,
        };
        let mut c = c;
        let mut at: Vec<(&str, String)> = vec![
            ("id", c.id.to_string()),
            ("created_at", c.created.clone()),
            ("open", c.open.to_string()),
            ("num_changes", c.num_changes.to_string()),
            ("comments_count", c.comments.to_string()),
        ];
        if let Some(x) = &c.closed {
            at.push(("closed_at", x.clone()));
        }
        if let Some(x) = &c.user {
            at.push(("user", x.clone()));
        }
        if let Some(x) = c.uid {
            at.push(("uid", x.to_string()));
        }
        if ctx.chance(1, 2) {
            for k in ["min_lat", "min_lon", "max_lat", "max_lon"] {
                at.push((k, fixed7(ctx, 123_456_789)));
            }
        }
        if st.extras && ctx.chance(1, 3) {
            at.push(("extra", mk::text(ctx, Chars::Xml)));
        }
        let mut kids: Vec<String> = c.tags.iter().map(|(k, v)| leaf(ctx, &st, "tag", &[("k", k.clone()), ("v", v.clone())])).collect();
        if ctx.chance(1, 6) {
            let disc = format!(
                "<discussion>{}<comment uid=\"1\" user=\"x\" date=\"2020-01-01T00:00:00Z\"><text>see &lt;changeset&gt; &amp; <![CDATA[</changeset>]]></text></comment></discussion>",
                ws(ctx, &st, 3)
            );
            let at = ctx.us(kids.len() + 1);
            kids.insert(at, disc);
            ctx.probe("changeset_discussion");
        }
        if st.extras && ctx.chance(1, 4) {
            let at = ctx.us(kids.len() + 1);
            kids.insert(at, (*ctx.pick(&["<!-- <tag k='a' v='b'/> -->", "<other k=\"a\" v=\"b\"/>", "text", "<other><inner/></other>"])).into());
        }
        s.push_str(&ws(ctx, &st, 1));
        if st.extras && ctx.chance(1, 8) {
            s.push_str(*ctx.pick(&["<!-- between <changeset id=\"9\"/> -->", "<?pi x?>", "<elsewhere a=\"b\"/>"]));
        }
        let a = s.len();
        let mut x = open(ctx, &st, "changeset", &at);
        c.content = kids.iter().any(|k| k.starts_with('<') && !k.starts_with("<!"));
        if kids.is_empty() && !ctx.chance(1, 3) {
            x.push_str("/>");
            c.empty = true;
        } else {
            x.push('>');
            for k in kids {
                x.push_str(&ws(ctx, &st, 2));
                x.push_str(&k);
            }
            x.push_str(&ws(ctx, &st, 1));
            x.push_str("</changeset>");
        }
        s.push_str(&x);
        d.spans.push((a, s.len()));
        d.cs.push(c);
    }
    s.push_str(&ws(ctx, &st, 0));
    s.push_str("</osm>");
    d.root_end = s.len();
    if ctx.chance(2, 3) {
        s.push('\n');
    }
    d.bytes = s.into_bytes();
    ctx.hash_bytes(&d.bytes);
    ctx.objects(d.cs.len());
    ctx.summary(|| format!("changeset dump {} bytes, {} changesets", d.bytes.len(), d.cs.len()));
    d
}

/// All the data that can come out of a bzip2 file before its end or its first error: the decoder drops
/// what it has in hand when it finds an error, so the most comes out in the smallest steps.
pub fn most_of_bz2(file: &[u8]) -> (Vec<u8>, std::io::Result<()>) {
    struct Tiny<'a>(&'a [u8]);
    impl std::io::Read for Tiny<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(1);
            self.0.read(&mut b[..n])
        }
    }
    use std::io::Read;
    let mut have = Vec::new();
    let mut dec = bzip2::read::MultiBzDecoder::new(Tiny(file));
    let mut b = [0; 1];
    loop {
        match dec.read(&mut b) {
            Ok(0) => return (have, Ok(())),
            Ok(_) => have.push(b[0]),
            Err(e) => return (have, Err(e)),
        }
    }
}
