//! Every reported position is valid.

use super::*;
use crate::dbg::Elem;
use crate::ensure;
use crate::exec::{hash, use_all, with, Check, Entry, Limits};
use crate::gen::Opts;
use sql_parse::Spanned;
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 1_300_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct texts",
    real: REAL,
    stub: STUB,
    assumptions: &["positions inside statements are read from their printed form"],
};

fn ok(text: &str, r: &Range<usize>) -> bool {
    r.start <= r.end && r.end <= text.len() && text.is_char_boundary(r.start) && text.is_char_boundary(r.end)
}

fn diagnostics(text: &str, issues: &Issues) -> Check {
    for i in issues.get() {
        ensure!(ok(text, &i.span), "position of diagnostic", "{:?} on {}", i, show(text));
        ensure!(text[i.span.clone()] == *i.sql_segment, "excerpt of diagnostic", "{:?} on {}", i, show(text));
        for f in &i.fragments {
            ensure!(ok(text, &f.span) && text[f.span.clone()] == *f.sql_segment, "position of note", "{:?} on {}", i, show(text));
        }
    }
    Ok(())
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose_any(&mut cx.c);
    let text = if cx.c.chance(2, 3) { wreck(cx, o) } else { mixed(cx, o, 1, 3).text };
    let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
    cx.log(|| format!("{:?} {:?} {}", e, o, show(&text)));
    sample(cx, &text);
    let ((spans, dumps, bad), m) = with(&text, &o, e, Limits::for_len(text.len()), |s, i| {
        let dumps = use_all(s, i).0;
        (s.iter().map(|s| s.span()).collect::<Vec<_>>(), dumps, diagnostics(&text, i))
    })?;
    cx.meter(&m);
    bad?;
    for (s, d) in spans.iter().zip(&dumps) {
        ensure!(ok(&text, s), "position of statement", "{:?} of {} on {}", s, d, show(&text));
        for (el, r) in dbg::elems(d) {
            ensure!(ok(&text, &r), "position in statement", "{:?} {:?} in {} on {}", el, r, d, show(&text));
            match el {
                Elem::Name(v) => {
                    let t = &text[r.clone()];
                    let q = t.len() >= 2 && (t.starts_with('`') && t.ends_with('`') || t.starts_with('"') && t.ends_with('"'));
                    let t = if q { &t[1..t.len() - 1] } else { t };
                    ensure!(t == v || (v.is_empty() && r == (0..0)), "name", "{:?} is not the text at {:?} in {} on {}", v, r, d, show(&text));
                }
                Elem::Data(v) => ensure!(text[r.clone()] == v, "data", "{:?} is not the text at {:?} on {}", v, r, show(&text)),
                _ => (),
            }
        }
    }
    cx.st.add("positions checked", dumps.iter().map(|d| dbg::elems(d).len() as u64).sum());
    cx.reached(hash(text.as_bytes()));
    Ok(())
}
