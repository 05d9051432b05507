//! A parse abandoned at any point leaves consistent diagnostics.

use super::*;
use crate::choice::mix;
use crate::ensure;
use crate::exec::{self, call, diag, guarded, hash, must, use_all, Check, End, Entry, Limits};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 180_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct (text, options, crash point) triples in which a crash was injected",
    real: REAL,
    stub: STUB,
    assumptions: &["crash points are the steps of the seam: before a token, inline data or a diagnostic"],
};

fn dumps(i: &Issues) -> Vec<String> {
    i.get().iter().map(|i| diag(i).dump).collect()
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose_any(&mut cx.c);
    let text = if cx.c.chance(1, 2) { wreck(cx, o) } else { mixed(cx, o, 1, 3).text };
    let e = if cx.c.chance(1, 4) { Entry::Single } else { Entry::Script };
    cx.log(|| format!("{:?} {:?} {}", e, o, show(&text)));
    sample(cx, &text);
    let full = exec::run(&text, &o, e)?;
    cx.meter(&full.meter);
    let lim = Limits::for_len(text.len());
    let n = full.meter.steps();
    let points: Vec<u64> = if n <= 20 { (0..n).collect() } else { (0..12).map(|_| cx.c.below(n as usize) as u64).collect() };
    let want: Vec<String> = full.diags.iter().map(|d| d.dump.clone()).collect();
    for p in points {
        let mut issues = Issues::new(&text);
        let own = cx.c.small(2);
        add_own(&mut cx.c, own, &mut issues);
        let before = cx.c.small(2);
        let mut held = Vec::new();
        for _ in 0..before {
            let (end, _) = guarded(lim, || call(&text, &mut issues, &o, e));
            held.push(must(end, &text, &lim)?);
        }
        let held_dump: Vec<Vec<String>> = held.iter().map(|h| h.iter().map(|s| format!("{:?}", s)).collect()).collect();
        let start = dumps(&issues);
        cx.log(|| format!("{} diagnostics before, crash at step {} of {}", start.len(), p, n));
        let (end, m) = guarded(lim.crash(p), || {
            call(&text, &mut issues, &o, e);
        });
        match end {
            End::Crashed => cx.fault("parse abandoned"),
            End::Done(()) => return fail("nondeterministic", format!("{} steps at first, then fewer than {} on {}", n, p, show(&text))),
            e => return must(e, &text, &lim),
        }
        cx.meter(&m);
        let got = dumps(&issues);
        ensure!(got.len() >= start.len() && got[..start.len()] == start[..], "earlier diagnostics changed", "crash at {} on {}", p, show(&text));
        let new = &got[start.len()..];
        ensure!(
            new.len() <= want.len() && new[..] == want[..new.len()],
            "not a prefix",
            "crash at {}: {:?} is no prefix of {:?} on {}",
            p,
            new,
            want,
            show(&text)
        );
        ensure!(
            new.len() as u64 == m.issues || new.len() as u64 + 1 == m.issues,
            "recorded diagnostics missing",
            "crash at {}: {} diagnostics held, {} recorded on {}",
            p,
            new.len(),
            m.issues,
            show(&text)
        );
        // again, into the same collection and a new one
        let same = cx.c.chance(1, 2);
        let (stmts, diags) = if same {
            let k = issues.get().len();
            let (end, _) = guarded(lim, || {
                let s = call(&text, &mut issues, &o, e);
                use_all(&s, &issues)
            });
            let (s, d) = must(end, &text, &lim)?;
            ensure!(d.len() >= k && d[..k].iter().map(|d| &d.dump).eq(got.iter()), "retry changed diagnostics", "crash at {} on {}", p, show(&text));
            (s, d[k..].to_vec())
        } else {
            let r = exec::run(&text, &o, e)?;
            (r.stmts, r.diags)
        };
        ensure!(stmts == full.stmts, "retry returns other statements", "crash at {}: {} on {}", p, exec::diff(&stmts.join("\n"), &full.stmts.join("\n")), show(&text));
        ensure!(diags == full.diags, "retry reports other diagnostics", "crash at {} on {}", p, show(&text));
        for (h, d) in held.iter().zip(&held_dump) {
            ensure!(h.iter().map(|s| format!("{:?}", s)).eq(d.iter().cloned()), "earlier statements changed", "crash at {} on {}", p, show(&text));
        }
        cx.reached(mix(hash(text.as_bytes()), mix(p, hash(format!("{:?}{:?}", o, e).as_bytes()))));
    }
    Ok(())
}
