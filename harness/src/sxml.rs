//! A small, strict XML parser (own code): judges what the writers produced.
use crate::model::{Kind, MObj, Ts};

#[derive(Debug, Clone)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
    pub text: bool,
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == ':' || (c as u32) >= 0xC0
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-' || c == '.'
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let near: String = self.rest().chars().take(30).collect();
        Err(format!("{m} at byte {} near {near:?}", self.i))
    }
    fn ws(&mut self) -> bool {
        let a = self.i;
        while let Some(' ' | '\t' | '\n' | '\r') = self.peek() {
            self.i += 1;
        }
        self.i > a
    }
    fn lit(&mut self, l: &str) -> bool {
        if self.rest().starts_with(l) {
            self.i += l.len();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> R<String> {
        let a = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += c.len_utf8(),
            _ => return self.err("name expected"),
        }
        while let Some(c) = self.peek() {
            if !name_char(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        Ok(self.s[a..self.i].to_string())
    }
    fn reference(&mut self) -> R<char> {
        // after &
        let end = match self.rest().find(';') {
            Some(e) if e <= 12 => e,
            _ => return self.err("unterminated reference"),
        };
        let r = &self.rest()[..end];
        let c = match r {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = r.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match n.and_then(char::from_u32) {
                    Some(c) if is_xml_char(c) => c,
                    _ => return self.err("bad reference"),
                }
            }
        };
        self.i += end + 1;
        Ok(c)
    }
    fn attrs(&mut self) -> R<Vec<(String, String)>> {
        let mut v: Vec<(String, String)> = Vec::new();
        loop {
            let gap = self.ws();
            match self.peek() {
                Some('>' | '/' | '?') => return Ok(v),
                None => return self.err("end inside a tag"),
                _ => {}
            }
            if !gap {
                return self.err("white space expected before an attribute");
            }
            let n = self.name()?;
            self.ws();
            if !self.lit("=") {
                return self.err("= expected");
            }
            self.ws();
            let q = match self.peek() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("quote expected"),
            };
            self.i += 1;
            let mut val = String::new();
            loop {
                let c = match self.peek() {
                    Some(c) => c,
                    None => return self.err("end inside an attribute"),
                };
                if !is_xml_char(c) {
                    return self.err("character XML does not allow");
                }
                self.i += c.len_utf8();
                match c {
                    c if c == q => break,
                    '<' => return self.err("< inside an attribute"),
                    '&' => val.push(self.reference()?),
                    '\r' => {
                        self.lit("\n");
                        val.push(' ');
                    }
                    '\n' | '\t' => val.push(' '),
                    c => val.push(c),
                }
            }
            if v.iter().any(|(a, _)| *a == n) {
                return self.err(&format!("attribute {n} twice"));
            }
            v.push((n, val));
        }
    }
    fn misc(&mut self) -> R<bool> {
        if self.lit("<!--") {
            match self.rest().find("--") {
                Some(e) if self.rest()[e..].starts_with("-->") => {
                    self.i += e + 3;
                    Ok(true)
                }
                _ => self.err("bad comment"),
            }
        } else if self.rest().starts_with("<?") && !self.rest().starts_with("<?xml ") {
            match self.rest().find("?>") {
                Some(e) => {
                    self.i += e + 2;
                    Ok(true)
                }
                None => self.err("bad instruction"),
            }
        } else {
            Ok(false)
        }
    }
    fn element(&mut self, depth: usize) -> R<El> {
        if depth > 100 {
            return self.err("too deep");
        }
        if !self.lit("<") {
            return self.err("< expected");
        }
        let name = self.name()?;
        let attrs = self.attrs()?;
        let mut el = El { name, attrs, kids: vec![], text: false };
        if self.lit("/>") {
            return Ok(el);
        }
        if !self.lit(">") {
            return self.err("> expected");
        }
        loop {
            if self.lit("</") {
                let n = self.name()?;
                if n != el.name {
                    return self.err(&format!("</{n}> closes <{}>", el.name));
                }
                self.ws();
                if !self.lit(">") {
                    return self.err("> expected");
                }
                return Ok(el);
            }
            if self.misc()? {
                continue;
            }
            if self.lit("<![CDATA[") {
                match self.rest().find("]]>") {
                    Some(e) => self.i += e + 3,
                    None => return self.err("bad CDATA"),
                }
                el.text = true;
                continue;
            }
            match self.peek() {
                None => return self.err(&format!("end of document inside <{}>", el.name)),
                Some('<') => {
                    let k = self.element(depth + 1)?;
                    el.kids.push(k);
                }
                Some('&') => {
                    self.i += 1;
                    self.reference()?;
                    el.text = true;
                }
                Some(c) => {
                    if !is_xml_char(c) {
                        return self.err("character XML does not allow");
                    }
                    if self.rest().starts_with("]]>") {
                        return self.err("]]> in text");
                    }
                    if !c.is_ascii_whitespace() {
                        el.text = true;
                    }
                    self.i += c.len_utf8();
                }
            }
        }
    }
}

/// A whole document: declaration, one root element, nothing but white space and comments around it.
pub fn parse(bytes: &[u8]) -> R<El> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut p = P { s, i: 0 };
    if p.rest().starts_with("<?xml") {
        p.i += 5;
        let a = p.attrs()?;
        if a.first().map(|x| x.0.as_str()) != Some("version") {
            return p.err("xml declaration without version");
        }
        if let Some((_, e)) = a.iter().find(|x| x.0 == "encoding") {
            if !e.eq_ignore_ascii_case("utf-8") {
                return p.err("encoding is not UTF-8");
            }
        }
        if !p.lit("?>") {
            return p.err("?> expected");
        }
    }
    loop {
        p.ws();
        if !p.misc()? {
            break;
        }
    }
    let root = p.element(0)?;
    loop {
        p.ws();
        if !p.misc()? {
            break;
        }
    }
    if p.i < s.len() {
        return p.err("content after the root element");
    }
    Ok(root)
}

impl El {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
}

/// exact decimal to 100-nanodegree units; also exponents
fn dec7(s: &str) -> Option<i32> {
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], s[i + 1..].parse::<i32>().ok()?),
        None => (s, 0),
    };
    let (neg, m) = match m.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, m),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let mut digits = format!("{i}{f}");
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    // value = digits * 10^(e - len f); wanted in 10^-7
    let mut exp = e - f.len() as i32 + 7;
    while exp > 0 {
        digits.push('0');
        exp -= 1;
    }
    while exp < 0 {
        if digits.pop()? != '0' {
            return None;
        }
        exp += 1;
    }
    let v: i64 = if digits.is_empty() { 0 } else { digits.parse().ok()? };
    i32::try_from(if neg { -v } else { v }).ok()
}

fn num<T: std::str::FromStr>(el: &El, k: &str) -> R<Option<T>> {
    match el.attr(k) {
        None => Ok(None),
        Some(v) => v.parse().map(Some).map_err(|_| format!("<{}> {k}={v:?} is not a number", el.name)),
    }
}

pub fn object(el: &El) -> R<MObj> {
    let kind = match el.name.as_str() {
        "node" => Kind::Node,
        "way" => Kind::Way,
        "relation" => Kind::Rel,
        n => return Err(format!("unexpected element <{n}>")),
    };
    let id = num::<i64>(el, "id")?.ok_or("object without id")?;
    let mut o = MObj::new(kind, id);
    for (k, _) in &el.attrs {
        let known = ["id", "visible", "version", "changeset", "timestamp", "uid", "user", "lat", "lon"];
        if !known.contains(&k.as_str()) {
            return Err(format!("{}: unexpected attribute {k}", o.short()));
        }
    }
    o.version = num(el, "version")?;
    o.changeset = num(el, "changeset")?;
    o.uid = num(el, "uid")?;
    o.user = el.attr("user").map(|s| s.to_string());
    o.ts = el.attr("timestamp").map(|s| Ts::Iso(s.to_string()));
    o.deleted = match el.attr("visible") {
        None | Some("true") => false,
        Some("false") => true,
        Some(v) => return Err(format!("{}: visible={v:?}", o.short())),
    };
    let c = |k: &str| -> R<Option<i32>> {
        match el.attr(k) {
            None => Ok(None),
            Some(s) => dec7(s).map(Some).ok_or_else(|| format!("{k}={s:?} is no coordinate of 100 nanodegree precision")),
        }
    };
    o.pos = match (c("lat")?, c("lon")?) {
        (Some(a), Some(b)) => Some((a, b)),
        (None, None) => None,
        _ => return Err(format!("{}: only one of lat and lon", o.short())),
    };
    if el.text {
        return Err(format!("{}: text inside", o.short()));
    }
    for k in &el.kids {
        let need = |a: &str| k.attr(a).map(|s| s.to_string()).ok_or_else(|| format!("{}: <{}> without {a}", o.short(), k.name));
        match (k.name.as_str(), kind) {
            ("tag", _) => {
                let t = (need("k")?, need("v")?);
                o.tags.push(t);
            }
            ("nd", Kind::Way) => {
                let r = need("ref")?.parse().map_err(|_| "bad ref")?;
                o.nodes.push(r);
            }
            ("member", Kind::Rel) => {
                let t = match need("type")?.as_str() {
                    "node" => Kind::Node,
                    "way" => Kind::Way,
                    "relation" => Kind::Rel,
                    t => return Err(format!("{}: member type {t:?}", o.short())),
                };
                let r = need("ref")?.parse().map_err(|_| "bad ref")?;
                let role = k.attr("role").unwrap_or("").to_string();
                o.members.push((t, r, role));
            }
            (n, _) => return Err(format!("{}: unexpected <{n}>", o.short())),
        }
    }
    Ok(o)
}

/// (root attributes, objects) of a written OSM XML document
pub fn osm(bytes: &[u8]) -> R<(Vec<(String, String)>, Vec<MObj>)> {
    let root = parse(bytes)?;
    if root.name != "osm" {
        return Err(format!("root is <{}>", root.name));
    }
    if root.text {
        return Err("text between objects".into());
    }
    let objs = root.kids.iter().map(object).collect::<R<Vec<_>>>()?;
    Ok((root.attrs, objs))
}

/// objects of a written OSC document; those in a delete section are deleted
pub fn osc(bytes: &[u8]) -> R<(Vec<(String, String)>, Vec<MObj>)> {
    let root = parse(bytes)?;
    if root.name != "osmChange" {
        return Err(format!("root is <{}>", root.name));
    }
    let mut objs = Vec::new();
    for sec in &root.kids {
        if !["create", "modify", "delete"].contains(&sec.name.as_str()) {
            return Err(format!("section <{}>", sec.name));
        }
        if sec.text || root.text {
            return Err("text between objects".into());
        }
        for k in &sec.kids {
            let mut o = object(k)?;
            if sec.name == "delete" {
                o.deleted = true;
            }
            objs.push(o);
        }
    }
    Ok((root.attrs, objs))
}
