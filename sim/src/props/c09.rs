//! Each delivered statement is returned exactly once, in order.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 400_000,
    thorough_s: 600,
    level: "exploration",
    rule: "distinct delivered scripts",
    real: REAL,
    stub: STUB,
    assumptions: &["supported statements are those of the generator; it covers every statement kind of the library"],
};

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let clients = 1 + cx.c.below(3);
    let mut n = 0;
    let mut sent: Vec<Vec<Msg>> = Vec::new();
    for _ in 0..clients {
        let k = cx.c.below(4);
        sent.push((0..k).map(|i| message(&mut cx.c, o, &mut n, Only::Any, i)).collect());
    }
    // the network interleaves the clients
    let mut all = Vec::new();
    while sent.iter().any(|s| !s.is_empty()) {
        let live: Vec<usize> = (0..sent.len()).filter(|i| !sent[*i].is_empty()).collect();
        let i = live[cx.c.below(live.len())];
        all.push(sent[i].remove(0));
    }
    let mut m = deliver(cx, all);
    let hurt = cx.c.chance(1, 3);
    if hurt {
        for x in &mut m {
            if flat(x) && cx.c.chance(1, 3) {
                damage_words(cx, x);
            }
        }
    }
    let s = assemble(cx, o, &m, ";", true);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let r = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    let g = groups(&s, &r)?;
    let dollar = o.args == 3;
    let mut last = 0;
    for x in &r.stmts {
        let e = dbg::extent(x).map(|e| e.start).unwrap_or(0);
        ensure!(e >= last, "order", "{} on {}", x, show(&s.text));
        last = e;
    }
    let mut delta = Some(0);
    for (i, it) in s.items.iter().enumerate() {
        let body = &s.text[it.start..it.body_end];
        if m[i].damaged.is_some() {
            let n = g[i].stmts.len();
            let errs = g[i].diags.iter().filter(|d| d.error).count();
            ensure!(n <= 1, "returned more than once", "{} times: {}", n, show(body));
            ensure!(n == 1 || errs > 0 || body.trim().is_empty(), "statement lost without error", "{} in {}", show(body), show(&s.text));
            // the same for a single statement
            let a = exec::run(body, &o, Entry::Single)?;
            cx.meter(&a.meter);
            ensure!(a.errors() > 0 || a.stmts.len() == 1, "no statement and no error", "{}", show(body));
            delta = None;
            continue;
        }
        let want = if it.data.is_some() { 2 } else { 1 };
        ensure!(g[i].stmts.len() == want, "not returned once", "{} times {} in {}", g[i].stmts.len(), show(body), show(&s.text));
        ensure!(dbg::variant(g[i].stmts[0]) == it.kind, "kind", "{} instead of {} for {}", dbg::variant(g[i].stmts[0]), it.kind, show(body));
        if want == 2 {
            ensure!(dbg::variant(g[i].stmts[1]) == "Stdin", "kind", "{} instead of data for {}", g[i].stmts[1], show(body));
        }
        ensure!(!g[i].diags.iter().any(|d| d.error), "error for a supported statement", "{} on {}", g[i].diags.iter().find(|d| d.error).unwrap().dump, show(&s.text));
        // alone
        let (t, e) = if it.data.is_some() { (&s.text[it.start..it.end()], Entry::Script) } else { (body, Entry::Single) };
        let a = exec::run(t, &o, e)?;
        cx.meter(&a.meter);
        let ag = whole(&a);
        if let Err(d) = same_group(&g[i], &ag, it.start as i64, &mut delta, dollar) {
            return fail("differs from the statement alone", format!("{} for {} in {}", d, show(t), show(&s.text)));
        }
        delta = delta.map(|d| d + placeholders(it));
    }
    cx.st.add("statements delivered", s.items.len() as u64);
    cx.reached(hash(s.text.as_bytes()));
    Ok(())
}
