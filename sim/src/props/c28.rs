//! Reserved words are not accepted as bare names.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts, Val};
use crate::reserved::{FREE, RESERVED};

pub const PROP: Prop = Prop {
    id: "C28",
    run,
    quick: 400_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct texts",
    real: REAL,
    stub: STUB,
    assumptions: &["the reserved words are those of the pinned commit", "a name is quoted with backquotes, for PostgreSQL with double quotes where the library takes them"],
};

fn run(cx: &mut Ctx) -> Check {
    match cx.c.below(3) {
        0 => quoted(cx),
        1 => {
            let o = Opts::choose_any(&mut cx.c);
            let text = if cx.c.chance(2, 3) { wreck(cx, o) } else { mixed(cx, o, 1, 3).text };
            let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
            bare(cx, &text, o, e)
        }
        _ => {
            // names overwritten with reserved words
            let o = Opts::choose(&mut cx.c);
            let mut m = messages(&mut cx.c, o, 1, 3, Only::Any);
            for x in &mut m {
                for t in &mut x.s.toks {
                    if t.cls == Cls::Name && cx.c.chance(1, 3) {
                        t.text = any_case(&mut cx.c, RESERVED);
                        cx.fault("name overwritten");
                    }
                }
                if flat(x) && cx.c.chance(1, 4) {
                    damage_words(cx, x);
                }
            }
            let text = assemble(cx, o, &m, ";", true).text;
            bare(cx, &text, o, Entry::Script)
        }
    }
}

fn any_case(c: &mut Choices, l: &[&str]) -> String {
    let w = *c.pick(l);
    match c.below(3) {
        0 => w.to_string(),
        1 => w.to_ascii_lowercase(),
        _ => w.chars().enumerate().map(|(i, x)| if i % 2 == 1 { x.to_ascii_lowercase() } else { x }).collect(),
    }
}

/// Every bare name that is reserved has an error at its place
fn bare(cx: &mut Ctx, text: &str, o: Opts, e: Entry) -> Check {
    cx.log(|| format!("{:?} {:?} {}", e, o, show(text)));
    sample(cx, text);
    let r = exec::run(text, &o, e)?;
    cx.meter(&r.meter);
    let mut names = 0;
    let mut reserved = 0;
    for d in &r.stmts {
        for (el, p) in dbg::elems(d) {
            let dbg::Elem::Name(n) = el else { continue };
            names += 1;
            if n.is_empty() || text.get(p.clone()) != Some(n.as_str()) || !RESERVED.contains(&n.to_ascii_uppercase().as_str()) {
                continue;
            }
            reserved += 1;
            ensure!(r.diags.iter().any(|d| d.error && d.span == p), "reserved word taken as a name", "{:?} at {:?} on {}", n, p, show(text));
        }
    }
    cx.st.add("names looked at", names);
    cx.st.add("reserved words reported", reserved);
    cx.reached(hash(text.as_bytes()));
    Ok(())
}

/// Any word will do when quoted
fn quoted(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let m = messages(&mut cx.c, o, 1, 3, Only::Any);
    let mut m = deliver(cx, m);
    let before = assemble(cx, o, &m, ";", false);
    let mut swapped = 0;
    for x in &mut m {
        for t in &mut x.s.toks {
            let Some(q) = t.text.chars().next().filter(|q| t.cls == Cls::Name && (*q == '`' || *q == '"')) else { continue };
            if cx.c.chance(2, 3) {
                let l = if cx.c.chance(1, 2) { RESERVED } else { FREE };
                let w = any_case(&mut cx.c, l);
                t.text = format!("{}{}{}", q, w, q);
                t.val = Val::Text(w);
                cx.fault("name overwritten");
                swapped += 1;
            }
        }
    }
    let s = assemble(cx, o, &m, ";", false);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let a = exec::run(&before.text, &o, Entry::Script)?;
    let b = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&a.meter);
    cx.meter(&b.meter);
    ensure!(b.errors() == a.errors(), "error for a quoted name", "{} on {}", b.diag_dump(), show(&s.text));
    ensure!(a.stmts.len() == b.stmts.len(), "other number of statements", "on {}", show(&s.text));
    for (x, y) in a.stmts.iter().zip(&b.stmts) {
        let (x, y) = (dbg::skeleton(x), dbg::skeleton(y));
        ensure!(x == y, "other structure", "{} on {}", diff(&x, &y), show(&s.text));
    }
    let got: Vec<_> = b.stmts.iter().flat_map(|d| dbg::elems(d)).collect();
    for it in &s.items {
        for (t, p) in &it.toks {
            if t.cls != Cls::Name || !t.track {
                continue;
            }
            let ok = got.iter().any(|(e, r)| r == p && matches!((e, &t.val), (dbg::Elem::Name(a), Val::Text(b)) if a == b));
            ensure!(ok, "name lost", "{:?} at {:?} on {}", t.text, p, show(&s.text));
        }
    }
    cx.st.add("words quoted", swapped);
    cx.reached(hash(s.text.as_bytes()));
    Ok(())
}
