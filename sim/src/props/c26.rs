//! A node's position encloses all of its parts.

use super::*;
use crate::ensure;
use crate::exec::{hash, with, Check, Entry, Limits};
use crate::gen::Opts;
use crate::truth;
use crate::walk::Walk;
use sql_parse::Spanned;

pub const PROP: Prop = Prop {
    id: "C26",
    run,
    quick: 400_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct texts",
    real: REAL,
    stub: STUB,
    assumptions: &["the parts of a node and their positions are read from its printed form"],
};

fn run(cx: &mut Ctx) -> Check {
    let valid = cx.c.chance(1, 2);
    let o = if valid { Opts::choose(&mut cx.c) } else { Opts::choose_any(&mut cx.c) };
    let mut script = None;
    let text = if valid {
        let m = messages(&mut cx.c, o, 1, 3, Only::Any);
        let m = deliver(cx, m);
        let s = assemble(cx, o, &m, ";", true);
        let t = s.text.clone();
        script = Some(s);
        t
    } else if cx.c.chance(2, 3) {
        wreck(cx, o)
    } else {
        mixed(cx, o, 1, 3).text
    };
    let e = if !valid && cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
    cx.log(|| format!("{:?} {:?} {}", e, o, show(&text)));
    sample(cx, &text);
    let mut nodes = 0;
    let ((bad, dumps, spans), m) = with(&text, &o, e, Limits::for_len(text.len()), |s, _| {
        let mut bad = None;
        let mut dumps = Vec::new();
        let mut spans = Vec::new();
        for s in s {
            Walk {
                f: &mut |k, sp, x| {
                    nodes += 1;
                    if bad.is_some() {
                        return;
                    }
                    let d = format!("{:?}", x);
                    let e = dbg::extent(&d);
                    let ok = match (&sp, &e) {
                        (None, None) => true,
                        (Some(a), None) => *a == (0..0),
                        (None, Some(_)) => false,
                        (Some(a), Some(b)) => a == b,
                    };
                    if !ok {
                        bad = Some(format!("{} at {:?} has parts at {:?}: {}", k, sp, e, d));
                    }
                },
            }
            .statement(s);
            spans.push(s.span());
            dumps.push(format!("{:?}", s));
        }
        (bad, dumps, spans)
    })?;
    cx.meter(&m);
    cx.st.add("nodes checked", nodes);
    if let Some(b) = bad {
        return fail("position of a node", format!("{} on {}", b, show(&text)));
    }
    let mut pairs = 0;
    for d in &dumps {
        let v = truth::parse(d).expect("printed form");
        let mut bad = None;
        truth::order(&v, &text, &mut pairs, &mut bad);
        if let Some(b) = bad {
            return fail("order of parts", format!("{} in {} on {}", b, d, show(&text)));
        }
    }
    cx.st.add("pairs of parts checked", pairs);
    if let Some(s) = script {
        // the first word of each delivered statement is part of it
        for (d, sp) in dumps.iter().zip(&spans) {
            if dbg::variant(d) == "Stdin" {
                continue;
            }
            let Some(it) = s.items.iter().find(|i| i.start <= sp.start && sp.start < i.end()) else {
                return fail("statement from nowhere", format!("{} on {}", d, show(&text)));
            };
            // known finding do-block: DO has no position, its statements have
            let skip: &[&str] = if it.kind == "Do" { &["(", "DO", "$$", "BEGIN"] } else { &["("] };
            let first = it.toks.iter().find(|t| !skip.contains(&t.0.text.to_ascii_uppercase().as_str())).map(|t| t.1.start);
            ensure!(Some(sp.start) == first, "start of statement", "{:?} instead of {:?} on {}", sp, first, show(&text));
            ensure!(sp.end <= it.body_end, "end of statement", "{:?} of {} on {}", sp, d, show(&text));
        }
    }
    cx.reached(hash(text.as_bytes()));
    Ok(())
}
