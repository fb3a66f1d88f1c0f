use crate::ctx::{Ctx, Res, Violation, fail};
use crate::doc::{self, Doc, Fmt};
use crate::io::{ERR_KINDS, SimReader};
use crate::model::{Kind, MObj, diff, extract};
use crate::rt::*;
use osmio::prelude::*;
use std::sync::Arc;

fn read(ctx: &Ctx, fmt: Fmt, bz: bool, rd: &SimReader, via: Via, max: usize) -> Drained {
    let next = guard(|| match (fmt, bz) {
        (Fmt::Xml, false) => open_xml(rd, via, false),
        (Fmt::Osc, false) => open_osc(rd, via, true),
        (Fmt::Xml, true) => open_xml_bz2(rd, via),
        (Fmt::Osc, true) => open_osc_bz2(rd),
    });
    match next {
        Err(s) => Drained { got: vec![], end: End::Stopped(s) },
        Ok(Err(e)) => Drained { got: vec![], end: End::Stopped(Stop::Panic(e)) },
        Ok(Ok(n)) => drain(ctx, max, n, extract),
    }
}

/// only the objects of one type
fn read_only(ctx: &Ctx, fmt: Fmt, only: Kind, rd: &SimReader, via: Via, max: usize) -> Drained {
    let next = guard(|| match fmt {
        Fmt::Xml => typed_xml(rd, via, only),
        Fmt::Osc => typed_osc(rd, via, only),
    });
    match next {
        Err(s) => Drained { got: vec![], end: End::Stopped(s) },
        Ok(Err(e)) => Drained { got: vec![], end: End::Stopped(Stop::Panic(e)) },
        Ok(Ok(n)) => drain(ctx, max, n, |o: &Result<MObj, String>| o.clone()),
    }
}

/// a broken source: a part of the first n objects, then loud
fn broken(ctx: &Ctx, fmt: Fmt, d: &Doc, rd: &SimReader, n: usize) -> Res {
    let via = Via::draw(ctx);
    let max = d.objs.len() + 20;
    if ctx.chance(1, 5) {
        let only = crate::generate::kind(ctx);
        ctx.summary(|| format!("only {only:?}"));
        let want: Vec<MObj> = d.objs[..n].iter().filter(|o| o.kind == only).cloned().collect();
        return read_only(ctx, fmt, only, rd, via, max).must_fail_within(&want, 0, want.len());
    }
    read(ctx, fmt, false, rd, via, max).must_fail_within(&d.objs, 0, n)
}

fn faithful(ctx: &Ctx, fmt: Fmt) -> Res {
    let d = doc::osm_doc(ctx, fmt, 40);
    let via = Via::draw(ctx);
    let bz = ctx.chance(1, 3);
    let other = if ctx.chance(1, 16) { doc::reencode(ctx, &d.bytes) } else { None };
    let text = other.as_ref().unwrap_or(&d.bytes);
    let bytes = if bz { doc::bz2(ctx, text).0 } else { text.clone() };
    let rd = SimReader::planned(ctx, Arc::new(bytes));
    read(ctx, fmt, bz, &rd, via, d.objs.len() + 20).must_be_all(&d.objs)
}

pub fn c08(ctx: &Ctx) -> Res {
    faithful(ctx, Fmt::Xml)
}

pub fn c09(ctx: &Ctx) -> Res {
    faithful(ctx, Fmt::Osc)
}

/// a byte before `end`, often next to where something begins or ends
fn place(ctx: &Ctx, spans: &[(usize, usize)], end: usize) -> usize {
    if spans.is_empty() || ctx.chance(1, 3) {
        return ctx.us(end.max(1));
    }
    let s = spans[ctx.us(spans.len())];
    let at = match ctx.us(4) {
        0 => s.0,
        1 => s.1,
        2 => s.0 + ctx.us(s.1 - s.0),
        _ => spans[spans.len() - 1].1,
    };
    let at = match ctx.us(4) {
        0 => at.saturating_sub(1 + ctx.us(3)),
        1 => at + 1,
        _ => at,
    };
    at.min(end.saturating_sub(1))
}

fn complete(d: &Doc, at: usize) -> usize {
    d.spans.iter().filter(|s| s.1 <= at).count()
}

/// a clean end must mean everything was there
fn clean_means_all(res: &Drained, d: &Doc) -> Res {
    match &res.end {
        End::Stopped(Stop::Panic(_)) => Ok(()),
        _ => res.must_be_all(&d.objs),
    }
}

pub fn c10(ctx: &Ctx) -> Res {
    let fmt = if ctx.chance(1, 2) { Fmt::Osc } else { Fmt::Xml };
    let mut d = doc::osm_doc(ctx, fmt, 25);
    let max = d.objs.len() + 20;
    match ctx.weighted(&[3, 3, 2, 2, 2, 1]) {
        0 | 1 if d.root_end == 0 => Ok(()),
        0 => {
            // the source fails
            let at = place(ctx, &d.spans, d.root_end);
            let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
            rd.set_fault(at, ctx.us(ERR_KINDS.len()), !ctx.chance(1, 3));
            let n = complete(&d, at);
            ctx.probe_if(n > 0, "fault_after_complete_objects");
            broken(ctx, fmt, &d, &rd, n)
        }
        1 => {
            // the source ends
            let at = place(ctx, &d.spans, d.root_end);
            let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
            rd.set_end(at);
            let n = complete(&d, at);
            ctx.probe_if(n > 0, "cut_after_complete_objects");
            broken(ctx, fmt, &d, &rd, n)
        }
        2 => {
            // damaged bzip2
            let (clean, _) = doc::bz2(ctx, &d.bytes);
            let bad = super::pbf::damage(ctx, &clean);
            let rd = SimReader::planned(ctx, Arc::new(bad));
            let via = Via::draw(ctx);
            let res = read(ctx, fmt, true, &rd, via, d.bytes.len());
            clean_means_all(&res, &d)
        }
        3 => {
            // cut or failing bzip2
            let (z, _) = doc::bz2(ctx, &d.bytes);
            let at = if ctx.chance(1, 3) { z.len() - 1 - ctx.us(z.len().min(12)) } else { ctx.us(z.len()) };
            let (have, _) = doc::most_of_bz2(&z[..at]);
            let rd = SimReader::planned(ctx, Arc::new(z.clone()));
            if ctx.chance(1, 2) {
                rd.set_end(at);
            } else {
                rd.set_fault(at, ctx.us(ERR_KINDS.len()), !ctx.chance(1, 3));
            }
            let via = Via::draw(ctx);
            let res = read(ctx, fmt, true, &rd, via, max);
            if have.len() >= d.root_end {
                return clean_means_all(&res, &d);
            }
            let n = complete(&d, have.len());
            res.must_fail_within(&d.objs, 0, n)
        }
        4 => {
            // an object without a usable id
            if d.objs.is_empty() {
                return Ok(());
            }
            let i = ctx.us(d.objs.len());
            let (a, b) = d.spans[i];
            let text = String::from_utf8(d.bytes[a..b].to_vec()).unwrap();
            let q = if text.contains(&format!("id=\"{}\"", d.objs[i].id)) { '"' } else { '\'' };
            let old = format!("id={q}{}{q}", d.objs[i].id);
            let new = match ctx.us(5) {
                0 => String::from("ident='1'"),
                1 => format!("id={q}{q}"),
                2 => format!("id={q}abc{q}"),
                3 => format!("id={q}9223372036854775808{q}"),
                _ => format!("id={q}12x{q}"),
            };
            // only in the object's own start tag
            let Some(at) = find_id(&text, &old) else { return Ok(()) };
            let mut t = text.clone();
            t.replace_range(at..at + old.len(), &new);
            ctx.fault("unusable_id");
            ctx.summary(|| format!("object {i} has {new}"));
            d.bytes.splice(a..b, t.into_bytes());
            let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
            let via = Via::draw(ctx);
            let res = read(ctx, fmt, false, &rd, via, max);
            res.must_fail_within(&d.objs[..i], 0, i)
        }
        _ => {
            // the source ends or fails only after the document is complete
            let at = d.root_end + ctx.us(d.bytes.len() - d.root_end + 1);
            let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
            if ctx.chance(1, 2) {
                rd.set_fault(at, ctx.us(ERR_KINDS.len()), true);
                let via = Via::draw(ctx);
                let res = read(ctx, fmt, false, &rd, via, max);
                if matches!(res.end, End::Stopped(Stop::Panic(_))) {
                    return res.must_fail_within(&d.objs, 0, d.objs.len());
                }
                return res.must_be_all(&d.objs);
            }
            // a comment or white space may be cut here, which leaves the document itself complete
            let tail = &d.bytes[d.root_end..at];
            rd.set_end(at);
            let via = Via::draw(ctx);
            let res = read(ctx, fmt, false, &rd, via, max);
            if tail.iter().all(|b| b.is_ascii_whitespace()) { res.must_be_all(&d.objs) } else { clean_means_all(&res, &d) }
        }
    }
}

/// where the id attribute of the start tag is, if it is there in plain
fn find_id(text: &str, old: &str) -> Option<usize> {
    for pre in [" ", "\n", "\t"] {
        let pat = format!("{pre}{old}");
        if let Some(p) = text.find(&pat) {
            // inside the start tag, not inside a quoted value: such values never hold both quotes raw
            let head = &text[..p];
            if !head.contains('>') && head.matches('"').count() % 2 == 0 && head.matches('\'').count() % 2 == 0 {
                return Some(p + pre.len());
            }
        }
    }
    None
}

pub fn c11(ctx: &Ctx) -> Res {
    match ctx.us(3) {
        0 => slow(ctx, Fmt::Xml),
        1 => slow(ctx, Fmt::Osc),
        _ => slow_changesets(ctx),
    }
}

/// what has arrived when object i is due
fn arrive(ctx: &Ctx, rd: &SimReader, spans: &[(usize, usize)], i: usize) {
    let end = spans[i].1;
    let next = spans.get(i + 1).map_or(end, |s| s.1 - 1);
    let at = if ctx.chance(1, 4) && next > end { end + ctx.us(next - end + 1) } else { end };
    let have = rd.lock().avail;
    if have == usize::MAX || have < at {
        rd.set_avail(at);
    }
}

fn slow(ctx: &Ctx, fmt: Fmt) -> Res {
    let d = doc::osm_doc(ctx, fmt, 25);
    let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
    let mut next: Next<_> = match fmt {
        Fmt::Xml => {
            let mut r = osmio::xml::XMLReader::new(rd.clone());
            Box::new(move || r.next())
        }
        Fmt::Osc => {
            let mut r = osmio::osc::OSCReader::new(rd.clone());
            Box::new(move || r.next())
        }
    };
    for i in 0..d.objs.len() {
        arrive(ctx, &rd, &d.spans, i);
        match guard(&mut next) {
            Err(Stop::Stall) => {
                return fail("held back", format!("{fmt:?} object {i} ends at byte {} which has arrived, but the reader asks for more before it delivers it", d.spans[i].1));
            }
            Err(s) => return bad(&s, &format!("object {i}")),
            Ok(None) => return fail("lost object", format!("end before object {i}")),
            Ok(Some(o)) => match extract(&o) {
                Err(e) => return fail("wrong object", e),
                Ok(g) => {
                    if let Some(x) = diff(&d.objs[i], &g) {
                        return fail("wrong object", format!("object {i}: {x}"));
                    }
                    ctx.log(|| format!("object {i} delivered"));
                    ctx.fault("stall_after_element");
                }
            },
        }
    }
    rd.set_avail(usize::MAX);
    drain(ctx, 5, next, extract).must_be_all(&[])
}

fn slow_changesets(ctx: &Ctx) -> Res {
    let d = doc::changesets(ctx, 25);
    let rd = SimReader::planned(ctx, Arc::new(d.bytes.clone()));
    let mut r = osmio::changesets::ChangesetReader::new(rd.clone());
    for i in 0..d.cs.len() {
        arrive(ctx, &rd, &d.spans, i);
        match guard(|| r.next()) {
            Err(Stop::Stall) => {
                return fail("held back", format!("changeset {i} ends at byte {} which has arrived, but the reader asks for more before it delivers it", d.spans[i].1));
            }
            Err(s) => return bad(&s, &format!("changeset {i}")),
            Ok(None) => return fail("lost object", format!("end before changeset {i}")),
            Ok(Some(Err(e))) => return fail("error", format!("changeset {i}: {e}")),
            Ok(Some(Ok(c))) => {
                if let Some(x) = super::changeset::cdiff(&d.cs[i], &c) {
                    return fail("wrong object", format!("changeset {i}: {x}"));
                }
                ctx.log(|| format!("changeset {i} delivered"));
                ctx.fault("stall_after_element");
            }
        }
    }
    rd.set_avail(usize::MAX);
    for _ in 0..2 {
        match guard(|| r.next()) {
            Ok(None) => {}
            Ok(Some(x)) => return fail::<()>("wrong object", format!("after the last changeset: {:?}", x.map(|c| c.id))),
            Err(s) => return bad::<()>(&s, "at the end"),
        }
    }
    Ok::<(), Violation>(())
}
