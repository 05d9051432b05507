//! Batch boundaries and retries do not matter.

use super::*;
use crate::choice::mix;
use crate::ensure;
use crate::exec::{self, call, guarded, hash, must, use_all, Check, Entry, Limits};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 160_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct (script, split) pairs",
    real: REAL,
    stub: STUB,
    assumptions: &["scripts without delimiter commands, which by C13 last until the end of a call"],
};

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let s = mixed(cx, o, 1, 5);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let lim = Limits::for_len(s.text.len());
    let full = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&full.meter);
    let g = groups(&s, &full)?;
    let dollar = o.args == 3;
    let tries = 1 + cx.c.below(3);
    for _ in 0..tries {
        // split into calls
        let each = cx.c.chance(1, 3);
        let mut from = 0;
        let mut first = 0;
        let mut h = hash(s.text.as_bytes());
        for i in 0..s.items.len() {
            let last = i + 1 == s.items.len();
            if !last && !each && cx.c.chance(1, 2) {
                continue;
            }
            let end = if last { s.text.len() } else { s.items[i].end() };
            h = mix(h, end as u64);
            let r = exec::run(&s.text[from..end], &o, Entry::Script)?;
            cx.meter(&r.meter);
            cx.fault("batch split");
            let mut want = Group { stmts: Vec::new(), diags: Vec::new() };
            for x in &g[first..=i] {
                want.stmts.extend_from_slice(&x.stmts);
                want.diags.extend_from_slice(&x.diags);
            }
            if let Err(d) = same_group(&want, &whole(&r), from as i64, &mut None, dollar) {
                return fail("split changes the result", format!("{} for {}, one call for {}", d, show(&s.text[from..end]), show(&s.text)));
            }
            // numbering starts again with every call
            let start: i64 = r.stmts.iter().flat_map(|x| dbg::running(x, dollar)).min().map(|x| x as i64).unwrap_or(0);
            if s.items[first..=i].iter().all(|i| !i.toks.is_empty()) && o.args != 0 {
                ensure!(start == 0, "placeholders not restarted", "{} first in {}", start, show(&s.text[from..end]));
            }
            from = end;
            first = i + 1;
        }
        cx.reached(h);
    }
    // one statement per call through the other entry point
    for (i, it) in s.items.iter().enumerate() {
        if it.toks.is_empty() || it.data.is_some() {
            continue;
        }
        let r = exec::run(&s.text[it.start..it.body_end], &o, Entry::Single)?;
        cx.meter(&r.meter);
        if let Err(d) = same_group(&g[i], &whole(&r), it.start as i64, &mut None, dollar) {
            return fail("single call changes the result", format!("{} for {}", d, show(&s.text[it.start..it.body_end])));
        }
    }
    // into a collection that already holds diagnostics
    let mut issues = Issues::new(&s.text);
    let own = cx.c.small(3);
    add_own(&mut cx.c, own, &mut issues);
    for k in 0..2 {
        let before: Vec<String> = issues.get().iter().map(|i| exec::diag(i).dump).collect();
        let (end, m) = guarded(lim, || {
            let x = call(&s.text, &mut issues, &o, Entry::Script);
            use_all(&x, &issues)
        });
        let (st, di) = must(end, &s.text, &lim)?;
        cx.meter(&m);
        cx.fault("parsed again");
        ensure!(st == full.stmts, "repetition changes statements", "parse {}: {} on {}", k, exec::diff(&st.join("\n"), &full.stmts.join("\n")), show(&s.text));
        ensure!(
            di.len() == before.len() + full.diags.len() && di[..before.len()].iter().map(|d| &d.dump).eq(before.iter()) && di[before.len()..] == full.diags[..],
            "repetition changes diagnostics",
            "parse {} on {}",
            k,
            show(&s.text)
        );
    }
    Ok(())
}
