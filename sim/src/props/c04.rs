//! Statements complete before a tear are preserved.

use super::*;
use crate::choice::mix;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 400_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct (script, cut) pairs",
    real: REAL,
    stub: STUB,
    assumptions: &["scripts use the default delimiter; C13 covers cut delimiter commands"],
};

/// Inline data that arrived after a terminator
pub fn arrived(rest: &str) -> &str {
    let b = rest.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] != b'\n' && b[i].is_ascii_whitespace() {
        i += 1;
    }
    let start = if i < b.len() && b[i] == b'\n' { i + 1 } else { i };
    let d = &rest[start..];
    // up to the end line
    let mut at = 0;
    for l in d.split_inclusive('\n') {
        if l == "\\.\n" || (l == "\\." && at + 2 == d.len()) {
            return &d[..at];
        }
        at += l.len();
    }
    d
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let s = mixed(cx, o, 1, 4);
    let full = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&full.meter);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let cuts = 1 + cx.c.below(8);
    for _ in 0..cuts {
        // mostly in the middle, often at an end
        let p = match cx.c.below(4) {
            0 => {
                let i = cx.c.below(s.items.len());
                let it = &s.items[i];
                let base = *cx.c.pick(&[it.start, it.body_end, it.term.end, it.end()]);
                (base + cx.c.below(4)).saturating_sub(2).min(s.text.len())
            }
            _ => cx.c.below(s.text.len() + 1),
        };
        let t = crate::damage::tear(&mut cx.c, &s.text, p);
        cx.fault("tail torn off");
        cx.log(|| format!("cut at {}", p));
        // only what is the same byte for byte counts as arrived
        let same = t.bytes().zip(s.text.bytes()).take_while(|(a, b)| a == b).count();
        let p = same;
        let r = exec::run(&t, &o, Entry::Script)?;
        cx.meter(&r.meter);
        let done: Vec<_> = s.items.iter().filter(|i| i.term.end <= p && (i.data.is_none() || i.end() <= p)).collect();
        let end = done.last().map(|i| i.end()).unwrap_or(0);
        let n = full.stmts.iter().take_while(|x| dbg::extent(x).is_some_and(|e| e.start < end)).count();
        let k = full.diags.iter().take_while(|d| d.span.start < end).count();
        ensure!(
            r.stmts.len() >= n && r.stmts[..n] == full.stmts[..n],
            "complete statement changed",
            "cut at {}: {} on {}",
            p,
            exec::diff(&r.stmts.join("\n"), &full.stmts[..n].join("\n")),
            show(&t)
        );
        ensure!(
            r.diags.len() >= k && r.diags[..k] == full.diags[..k],
            "diagnostics of complete statements changed",
            "cut at {}: {} on {}",
            p,
            exec::diff(&r.diag_dump(), &full.diag_dump()),
            show(&t)
        );
        for x in &r.stmts[n..] {
            ensure!(dbg::extent(x).is_some_and(|e| e.start >= end), "statement repeated", "cut at {}: {} on {}", p, x, show(&t));
        }
        for d in &r.diags[k..] {
            ensure!(d.span.start >= end, "diagnostic repeated", "cut at {}: {} on {}", p, d.dump, show(&t));
        }
        if let Some(it) = s.items.iter().find(|i| i.data.is_some() && i.term.end <= p && p < i.end()) {
            let want = arrived(&t[it.term.end..]);
            let got: Vec<String> = r.stmts[n..]
                .iter()
                .flat_map(|x| dbg::elems(x))
                .filter_map(|e| match e.0 {
                    dbg::Elem::Data(d) => Some(d),
                    _ => None,
                })
                .collect();
            ensure!(got.len() == 1 && got[0] == want, "torn data", "cut at {}: {:?} instead of {:?} on {}", p, got, want, show(&t));
            cx.fault("inline data torn");
        }
        cx.reached(mix(hash(t.as_bytes()), p as u64));
    }
    Ok(())
}
