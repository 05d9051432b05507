//! All statement forms are accepted.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C27",
    run,
    quick: 400_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct delivered scripts",
    real: REAL,
    stub: STUB,
    assumptions: &["the forms are those the library has a representation for and takes at the pinned commit; the statement generator reaches every one of them"],
};

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let m = messages(&mut cx.c, o, 1, 5, Only::Any);
    let mut m = deliver(cx, m);
    let hurt = cx.c.chance(1, 2);
    for x in &mut m {
        if hurt && flat(x) && cx.c.chance(1, 3) {
            damage_words(cx, x);
        }
    }
    let s = assemble(cx, o, &m, ";", true);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let r = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    let g = groups(&s, &r)?;
    for (it, g) in s.items.iter().zip(&g) {
        if it.toks.is_empty() {
            continue;
        }
        let t = &s.text[it.start..it.end()];
        if let Some(d) = g.diags.iter().find(|d| d.error) {
            return fail("supported form refused", format!("{} on {} in {}", d.dump, show(t), show(&s.text)));
        }
        ensure!(g.stmts.len() == 1 + it.data.is_some() as usize, "not one statement", "{:?} on {}", g.stmts, show(t));
        ensure!(dbg::variant(g.stmts[0]) == it.kind, "statement of another kind", "{} for {} on {}", dbg::variant(g.stmts[0]), it.kind, show(t));
        cx.st.add(&format!("accepted {}", it.kind), 1);
    }
    cx.reached(hash(s.text.as_bytes()));
    Ok(())
}
