//! Each clause is represented as what it says.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts};
use crate::truth;

pub const PROP: Prop = Prop {
    id: "C25",
    run,
    quick: 400_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct texts",
    real: REAL,
    stub: STUB,
    assumptions: &[
        "what a part of a statement says is read from its printed form",
        "words the library has no field for (for example AS of an alias) need not be found",
    ],
};

fn run(cx: &mut Ctx) -> Check {
    if cx.c.chance(1, 2) {
        delivered(cx)
    } else {
        let o = Opts::choose_any(&mut cx.c);
        let text = if cx.c.chance(2, 3) { wreck(cx, o) } else { mixed(cx, o, 1, 3).text };
        let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
        cx.log(|| format!("{:?} {:?} {}", e, o, show(&text)));
        sample(cx, &text);
        let r = exec::run(&text, &o, e)?;
        cx.meter(&r.meter);
        says(cx, &text, &r.stmts, &r.diags)?;
        cx.reached(hash(text.as_bytes()));
        Ok(())
    }
}

fn says(cx: &mut Ctx, text: &str, stmts: &[String], diags: &[exec::Diag]) -> Check {
    for d in stmts {
        let v = truth::parse(d).expect("printed form");
        let mut a = truth::Agree::new(text, diags);
        a.check(&v);
        cx.st.add("parts compared", a.n);
        if let Some(b) = a.bad {
            return fail("says something else", format!("{} in {} on {}", b, d, show(text)));
        }
    }
    Ok(())
}

/// Every keyword that was delivered is found
fn delivered(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let m = messages(&mut cx.c, o, 1, 4, Only::Any);
    let m = deliver(cx, m);
    let s = assemble(cx, o, &m, ";", true);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let r = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    ensure!(r.errors() == 0, "error for a supported script", "{} on {}", r.diag_dump(), show(&s.text));
    says(cx, &s.text, &r.stmts, &r.diags)?;
    for d in &r.stmts {
        let v = truth::parse(d).expect("printed form");
        let mut b = Vec::new();
        truth::blanks(&v, "", "", &mut b);
        if let Some((node, field)) = b.first() {
            return fail("position left blank", format!("{} of {} in {} on {}", field, node, d, show(&s.text)));
        }
    }
    let mut got: Vec<(usize, usize)> = r.stmts.iter().flat_map(|d| dbg::elems(d)).map(|e| (e.1.start, e.1.end)).filter(|e| *e != (0, 0)).collect();
    got.sort_unstable();
    got.dedup();
    let mut words = 0;
    for it in &s.items {
        let mut body = false;
        // branches with blocks
        let mut table = false;
        let blocks = matches!(it.kind, "If" | "Case") && it.toks.iter().any(|t| t.0.text.eq_ignore_ascii_case("BEGIN"));
        let kind = if blocks { "CreateTrigger" } else { it.kind };
        for (i, (t, p)) in it.toks.iter().enumerate() {
            body ^= t.text == "$$" && it.kind != "Do";
            table &= t.text != ";";
            if body {
                continue;
            }
            if t.track && matches!(t.cls, Cls::Name | Cls::Int | Cls::Float | Cls::Str | Cls::Arg) {
                // what the word is about belongs to some part of the result
                words += 1;
                let k = got.partition_point(|g| g.0 <= p.start);
                let found = k > 0 && got[..k].iter().rev().take(4).any(|g| g.1 >= p.end);
                ensure!(found, "clause lost", "{:?} at {:?} on {}", t.text, p, show(&s.text));
            }
            if t.cls != Cls::Kw || !t.text.starts_with(|c: char| c.is_ascii_alphabetic()) {
                continue;
            }
            let prev = if i > 0 { it.toks[i - 1].0.text.to_ascii_uppercase() } else { String::new() };
            let word = |i: usize| it.toks.get(i).map(|t| t.0.text.to_ascii_uppercase()).unwrap_or_default();
            if word(i) == "CREATE" {
                table = (i + 1..i + 5).map(word).take_while(|w| !matches!(w.as_str(), "AS" | "VIEW" | "INDEX")).any(|w| w == "TABLE");
            }
            let kind = if table { "CreateTable" } else { kind };
            if !truth::kept(kind, &prev, &t.text.to_ascii_uppercase()) {
                continue;
            }
            words += 1;
            // positions do not overlap, so the last that starts here or before
            let k = got.partition_point(|g| g.0 <= p.start);
            let found = k > 0 && got[..k].iter().rev().take(4).any(|g| g.1 >= p.end);
            ensure!(found, "keyword lost", "{:?} at {:?} on {}", t.text, p, show(&s.text));
        }
    }
    cx.st.add("keywords tracked", words);
    cx.reached(hash(s.text.as_bytes()));
    Ok(())
}
