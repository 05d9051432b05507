//! Keyword case, layout and comments carry no meaning.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts, Tok};
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    quick: 300_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct pairs of texts with the same words",
    real: REAL,
    stub: STUB,
    assumptions: &["relays change only the case of keywords, white space and comments between words"],
};

/// What a relay does to the words
#[derive(Debug)]
struct Relay {
    /// 0 as written, 1 upper, 2 lower, 3 any case
    case: usize,
    /// 0 one space, 1 one word on each line, 2 as tight as possible, 3 any
    gaps: usize,
}

fn recase(c: &mut Choices, case: usize, w: &str) -> String {
    match case {
        0 => w.to_string(),
        1 => w.to_ascii_uppercase(),
        2 => w.to_ascii_lowercase(),
        _ => w.chars().map(|x| if c.chance(1, 2) { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() }).collect(),
    }
}

/// Text and the place of each word
fn relay(c: &mut Choices, r: &Relay, msgs: &[(Vec<Tok>, Option<String>)], end: bool) -> (String, Vec<Range<usize>>) {
    let mut out = String::new();
    let mut at = Vec::new();
    for (i, (toks, data)) in msgs.iter().enumerate() {
        for (k, t) in toks.iter().enumerate() {
            let must = k > 0 && !t.glue;
            let may = k > 0 || i > 0 || data.is_none();
            match r.gaps {
                0 if must => out.push(' '),
                1 if k > 0 => out.push_str("\r\n"),
                2 if must && out.ends_with(['/', '-']) => out.push(' '),
                2 if must => out.push_str(*c.pick(&[" ", "\n", "\t", "\r", "/**/", "--\n"])),
                3 if must || (may && c.chance(1, 3)) => {
                    for _ in 0..1 + c.small(2) {
                        gen::space(c, &mut out);
                    }
                }
                _ => (),
            }
            let s = out.len();
            let kw = matches!(t.cls, Cls::Kw | Cls::Word) && t.text.chars().all(|x| x.is_ascii_alphanumeric() || x == '_');
            if kw && t.text != "a1" {
                let w = recase(c, r.case, &t.text);
                out.push_str(&w);
            } else {
                out.push_str(&t.text);
            }
            at.push(s..out.len());
        }
        if i + 1 < msgs.len() || end || data.is_some() {
            if r.gaps == 3 && c.chance(1, 3) {
                gen::space(c, &mut out);
            }
            at.push(out.len()..out.len() + 1);
            out.push(';');
        }
        if let Some(d) = data {
            out.push('\n');
            let s = out.len();
            out.push_str(d);
            at.push(s..out.len());
            out.push_str("\\.\n");
        }
    }
    (out, at)
}

/// The place of a position among the words
fn place_of(at: &[Range<usize>], len: usize, r: &Range<usize>) -> String {
    let start = at.partition_point(|x| x.end <= r.start);
    let s = match at.get(start) {
        Some(x) if x.start <= r.start => format!("{}+{}", start, r.start - x.start),
        _ if r.start == len => "end".to_string(),
        _ => match at.iter().position(|x| x.start == r.start) {
            // an empty one
            Some(k) => format!("{}+0", k),
            None => format!("before {}", start),
        },
    };
    let end = at.partition_point(|x| x.end < r.end);
    let e = match at.get(end) {
        Some(x) if x.start <= r.end => format!("{}+{}", end, r.end - x.start),
        _ if r.end == len => "end".to_string(),
        _ => format!("before {}", end),
    };
    format!("{}..{}", s, e)
}

fn run(cx: &mut Ctx) -> Check {
    let mut o = Opts::choose(&mut cx.c);
    o.warn_kw = false;
    let m = messages(&mut cx.c, o, 1, 3, Only::Any);
    let m = deliver(cx, m);
    let mut hurt = false;
    let mut msgs: Vec<(Vec<Tok>, Option<String>)> = Vec::new();
    for x in &m {
        let mut t = x.s.toks.clone();
        if flat(x) && cx.c.chance(1, 3) {
            let k = 1 + cx.c.small(3);
            let mut done = Vec::new();
            damage::words(&mut cx.c, &mut t, k, damage::foreign, |x| done.push(x));
            for d in done {
                cx.fault(d);
            }
            // what is next to each other now need not stay apart by itself
            t.iter_mut().for_each(|t| t.glue = false);
            hurt = true;
        }
        msgs.push((t, x.data.clone()));
    }
    let end = cx.c.chance(3, 4);
    let ra = Relay { case: cx.c.below(4), gaps: cx.c.below(4) };
    let rb = Relay { case: cx.c.below(4), gaps: cx.c.below(4) };
    let (ta, pa) = relay(&mut cx.c, &ra, &msgs, end);
    let (tb, pb) = relay(&mut cx.c, &rb, &msgs, end);
    cx.fault("layout changed by relay");
    cx.log(|| format!("{:?} {:?} {} {:?} {}", o, ra, show(&ta), rb, show(&tb)));
    sample(cx, &tb);
    let e = if cx.c.chance(1, 4) { Entry::Single } else { Entry::Script };
    let a = exec::run(&ta, &o, e)?;
    let b = exec::run(&tb, &o, e)?;
    cx.meter(&a.meter);
    cx.meter(&b.meter);
    let on = || format!("{} and {}", show(&ta), show(&tb));
    ensure!(a.stmts.len() == b.stmts.len(), "other number of statements", "{} and {} on {}", a.stmts.len(), b.stmts.len(), on());
    let norm = |s: &str, at: &[Range<usize>], len: usize| dbg::places(s, |r| place_of(at, len, &r)).to_uppercase();
    for (x, y) in a.stmts.iter().zip(&b.stmts) {
        let (x, y) = (norm(x, &pa, ta.len()), norm(y, &pb, tb.len()));
        ensure!(x == y, "other statement", "{} on {}", diff(&x, &y), on());
    }
    ensure!(a.diags.len() == b.diags.len(), "other diagnostics", "{} and {} on {}", a.diag_dump(), b.diag_dump(), on());
    for (x, y) in a.diags.iter().zip(&b.diags) {
        let (x, y) = (norm(&x.dump, &pa, ta.len()), norm(&y.dump, &pb, tb.len()));
        ensure!(x == y, "other diagnostics", "{} on {}", diff(&x, &y), on());
    }
    ensure!(hurt || !end || e == Entry::Single || a.errors() == 0, "error for a supported script", "{} on {}", a.diag_dump(), show(&ta));
    cx.st.add("words laid out twice", pa.len() as u64);
    cx.reached(hash(ta.as_bytes()) ^ hash(tb.as_bytes()).rotate_left(1));
    Ok(())
}
