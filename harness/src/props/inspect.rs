//! The two inspection tools as processes under the simulated operating system.
use super::tool::{ERRNOS, Exit, Scratch, base_plan, loud, refused, run_bin};
use crate::ctx::{Ctx, Res, fail};
use crate::doc::{self, Fmt};
use crate::model::MObj;
use crate::pbf::{self, Opts};
use crate::rt::guard;
use osmio::osc::OSCReader;
use osmio::{OSMObjBase, OSMReader};

/// What the tool said about the input
#[derive(PartialEq, Debug)]
enum Said {
    Count(u64),
    Objects(usize, bool),
}

/// the last "Processed N objects" of the speed test
fn processed(out: &str) -> Option<u64> {
    let line = out.lines().rev().find(|l| l.starts_with("Processed "))?;
    let n: String = line["Processed ".len()..].split(' ').next()?.chars().filter(|c| c.is_ascii_digit()).collect();
    n.parse().ok()
}

/// What the library's own reader makes of the document, the way an object is printed for debugging
fn in_words(bytes: &[u8], want: &[MObj]) -> Result<Vec<[String; 2]>, String> {
    let objs = guard(|| OSCReader::new(bytes).objects().collect::<Vec<_>>()).map_err(|s| s.text())?;
    if objs.len() != want.len() || objs.iter().zip(want).any(|(o, w)| o.id() != w.id) {
        return Err(format!("{} other objects instead of {}", objs.len(), want.len()));
    }
    Ok(objs.iter().map(|o| [format!("{o:#?}"), format!("{o:?}")]).collect())
}

/// How many of the objects the debug tool has printed, in order, with at most a line of its own before each;
/// and whether that is all it printed
fn printed(err: &str, all: &[[String; 2]]) -> (usize, bool) {
    let mut rest = err;
    for (n, forms) in all.iter().enumerate() {
        let hit = forms.iter().filter_map(|t| rest.find(t.as_str()).map(|at| (at, t.len()))).min();
        match hit {
            Some((at, len)) if rest[..at].trim().lines().count() <= 1 => rest = &rest[at + len..],
            _ => return (n, false),
        }
    }
    (all.len(), rest.trim().is_empty())
}

/// Both tools: success means that all of the input was handled
pub fn c25(ctx: &Ctx) -> Res {
    let sc = Scratch::new();
    let speed = ctx.chance(1, 2);
    let bin = if speed { "pbf-read-speed" } else { "osc-debug" };
    ctx.summary(|| bin.into());
    // the input, what there is to say about it, and places where it must not end
    let mut words = Vec::new();
    let (bytes, want, cuts): (Vec<u8>, Said, Vec<usize>) = if speed {
        let f = pbf::file(ctx, &Opts { max_group: 12, ..Opts::default() });
        let inside: Vec<usize> = f.blocks.iter().flat_map(|b| [b.start + 1, b.blob, b.end - 1, (b.start + b.end) / 2]).filter(|c| !f.boundary(*c)).collect();
        let (mut bytes, mut n) = (f.bytes, f.objs.len() as u64);
        if n > 0 && ctx.chance(1, 10) {
            // the same again and again: beyond the point where the tool reports its progress
            let times = (*ctx.pick(&[20_000u64, 1_000_001, 2_100_000]) / n).min(12_000_000 / bytes.len() as u64) + 1;
            bytes = bytes.repeat(times as usize);
            n *= times;
            ctx.probe_if(n > 1_000_000, "over_a_million_objects");
        }
        (bytes, Said::Count(n), inside)
    } else {
        let d = doc::osm_doc(ctx, Fmt::Osc, 25);
        let mut inside: Vec<usize> = d.spans.iter().flat_map(|s| [s.0, s.1, (s.0 + s.1) / 2]).collect();
        inside.extend([0, d.root_open, d.root_end - 1]);
        inside.retain(|c| *c < d.root_end);
        words = match in_words(&d.bytes, &d.objs) {
            Ok(w) => w,
            Err(e) => return fail("wrong object", format!("the library reads the document wrongly: {e}")),
        };
        (d.bytes, Said::Objects(d.objs.len(), true), inside)
    };
    let mut plan = base_plan(ctx, bytes.len() > 100_000);
    let mut input = bytes;
    let mut must_fail = false;
    let mut deaf = false;
    let mut must_work = false;
    match ctx.weighted(&[4, 3, 3, 3, 3]) {
        0 => must_work = true,
        1 => {
            // the input is cut
            if !cuts.is_empty() {
                let at = *ctx.pick(&cuts);
                input.truncate(at);
                ctx.fault("input_cut");
                ctx.summary(|| format!("input cut at {at}"));
                must_fail = true;
            }
        }
        2 => {
            // reading it fails
            if !cuts.is_empty() {
                let at = *ctx.pick(&cuts);
                let (e, name) = *ctx.pick(&ERRNOS);
                plan.push_str(&format!(" inerr={at},{e}"));
                ctx.fault(&format!("input_{name}"));
                ctx.summary(|| format!("{name} at {at}"));
                must_fail = true;
            }
        }
        3 => {
            // its output cannot be written
            let least = if speed { 20 } else { words.iter().map(|w| w[0].len().min(w[1].len())).sum() };
            if least > 0 {
                let room = if ctx.chance(1, 2) { ctx.us(least) } else { 0 };
                let (e, name) = *ctx.pick(&[(28, "full"), (5, "io_error"), (32, "broken_pipe")]);
                plan.push_str(&format!(" outerr={room},{e}"));
                ctx.fault(&format!("output_{name}"));
                ctx.summary(|| format!("output: {name} after {room} bytes"));
                must_fail = true;
                deaf = true;
            }
        }
        _ => {
            // one of its first operations fails or kills it: opening, reading or writing to its output
            let (e, name) = *ctx.pick(&ERRNOS);
            let action = 1 + ctx.us(5);
            let op = ctx.us(4) + if ctx.chance(1, 2) { ctx.us(40) } else { 0 };
            ctx.fault(&format!("operation_{}", if action < 3 { name } else { "killed" }));
            plan.push_str(&format!(" at={op},{action},{e}"));
            ctx.summary(|| format!("at={op},{action},{name}"));
        }
    }
    sc.put("in/input", &input);
    let r = run_bin(ctx, &sc, &plan, bin, &["in/input"]);
    refused(&r.log)?;
    let text = |n: &str| String::from_utf8_lossy(&std::fs::read(sc.path(n)).unwrap_or_default()).into_owned();
    let said = if speed { processed(&text("out")).map(Said::Count) } else { Some(printed(&text("err"), &words)).map(|(n, only)| Said::Objects(n, only)) };
    ctx.event(7, text("out").len() as u64, text("err").len() as u64);
    match r.exit {
        Exit::Success if must_fail => fail("silent", format!("the tool reports success, having said {said:?} of {want:?}")),
        Exit::Success => {
            if said.as_ref() != Some(&want) {
                return fail("incomplete", format!("the tool reports success, but said {said:?} instead of {want:?}"));
            }
            Ok(())
        }
        Exit::Failure(_) if must_work => fail("failure", format!("the tool fails without any fault: {}", text("err").lines().last().unwrap_or(""))),
        Exit::Failure(_) | Exit::Killed => {
            if must_fail {
                ctx.probe("bad_input_refused");
                if speed && !deaf && said.is_some() && matches!(&said, Some(Said::Count(n)) if Said::Count(*n) == want) {
                    return fail("silent", "the tool reports all objects of an incomplete input");
                }
            }
            if r.exit == Exit::Killed {
                ctx.fault("killed");
                return Ok(());
            }
            loud(r.exit)
        }
        Exit::Hung => fail("hang", "the tool does not end"),
    }
}
