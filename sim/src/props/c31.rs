//! Clauses that exclude one another are refused.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts, Tok, PG};
use crate::reserved::RESERVED;
use crate::truth::{self, V};
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C31",
    run,
    quick: 500_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct texts",
    real: REAL,
    stub: STUB,
    assumptions: &["which clauses exclude one another is taken from the library's own messages, as a table in the check"],
};

fn field<'a>(f: &'a [(String, V)], n: &str) -> Option<&'a V> {
    f.iter().find(|x| x.0 == n).map(|x| &x.1)
}

fn is(v: Option<&V>, w: &[&str]) -> bool {
    matches!(v, Some(V::Node(n, _)) if w.contains(&n.as_str()))
}

/// Parts that cannot stand where they are
fn parts(v: &V, out: &mut Vec<(&'static str, Option<Range<usize>>)>) {
    match v {
        V::Node(n, f) => {
            match n.as_str() {
                "InsertReplace" if field(f, "type_").is_some() => {
                    if is(field(f, "type_"), &["Replace"]) {
                        if let Some(V::List(l)) = field(f, "flags") {
                            for x in l {
                                if is(Some(x), &["Ignore", "HighPriority"]) {
                                    out.push(("flag of INSERT in REPLACE", truth::ext(x)));
                                }
                            }
                        }
                    }
                    let set = field(f, "set").is_some_and(|s| !is(Some(s), &["None"]));
                    if set && matches!(field(f, "columns"), Some(V::List(l)) if !l.is_empty()) {
                        out.push(("columns and SET", field(f, "columns").and_then(truth::ext)));
                    }
                }
                "WithBlock" | "WithQuery" => {
                    if let Some(s) = field(f, "statement") {
                        if !is(Some(s), &["Select", "InsertReplace", "Update", "Delete", "Invalid"]) {
                            out.push(("statement in WITH", truth::ext(s)));
                        }
                    }
                }
                "Invalid" => out.push(("part that was not understood", truth::ext(v))),
                "Function" if is(field(f, "0"), &["Unknown"]) => out.push(("function that is not known", field(f, "2").and_then(truth::ext))),
                "WindowFunction" if is(field(f, "function"), &["Unknown"]) => out.push(("function that is not known", field(f, "function_span").and_then(truth::ext))),
                _ => (),
            }
            f.iter().for_each(|x| parts(&x.1, out));
        }
        V::List(l) | V::Tuple(l) => l.iter().for_each(|x| parts(x, out)),
        _ => (),
    }
}

fn told(cx: &mut Ctx, text: &str, r: &exec::Res) -> Check {
    for d in &r.stmts {
        let v = truth::parse(d).expect("printed form");
        let mut p = Vec::new();
        parts(&v, &mut p);
        if p.is_empty() {
            continue;
        }
        let all = truth::ext(&v).unwrap_or(0..0);
        for (w, at) in p {
            cx.st.add(w, 1);
            let exact = w != "part that was not understood";
            let ok = r.diags.iter().filter(|d| d.error).any(|d| match &at {
                Some(at) if exact => d.span.start < at.end && at.start < d.span.end,
                _ => d.span.start >= all.start,
            });
            ensure!(ok, "accepted together", "{} at {:?} on {}", w, at, show(text));
        }
    }
    Ok(())
}

fn kw(text: &str) -> Tok {
    Tok { cls: Cls::Kw, ..damage::tok(text) }
}

fn op(text: &str) -> Tok {
    Tok { cls: Cls::Op, ..damage::tok(text) }
}

/// Put something into the message that excludes what is there
fn clash(cx: &mut Ctx, o: Opts, m: &mut Msg) -> Option<&'static str> {
    let name = if o.dialect == PG { "zz" } else { "`zz`" };
    let t = &mut m.s.toks;
    let at = |t: &[Tok], l: &[&str]| t.iter().position(|x| x.cls == Cls::Kw && l.iter().any(|w| x.text.eq_ignore_ascii_case(w)));
    match m.s.kind {
        "InsertReplace" => {
            let set = at(t, &["SET"]);
            let other = at(t, &["VALUES", "VALUE", "SELECT", "ON", "DUPLICATE"]);
            if t[0].text.eq_ignore_ascii_case("REPLACE") && cx.c.chance(1, 2) {
                let mut i = 1;
                while t.get(i).is_some_and(|x| ["LOW_PRIORITY", "DELAYED"].iter().any(|w| x.text.eq_ignore_ascii_case(w))) && cx.c.chance(1, 2) {
                    i += 1;
                }
                let w = *cx.c.pick(&["IGNORE", "HIGH_PRIORITY", "ignore"]);
                t.insert(i, kw(w));
                // among others
                for _ in 0..cx.c.small(3) {
                    let w = *cx.c.pick(&["LOW_PRIORITY", "DELAYED"]);
                    let j = 1 + cx.c.below(i);
                    t.insert(j, kw(w));
                    i += 1;
                }
                return Some("flag of INSERT in REPLACE");
            }
            let s = set.filter(|s| other.is_none_or(|x| *s < x))?;
            let mut c = vec![op("("), damage::tok(name)];
            if cx.c.chance(1, 2) {
                c.extend([op(","), damage::tok(name)]);
            }
            c.push(op(")"));
            t.splice(s..s, c);
            Some("columns and SET")
        }
        "Delete" => {
            let from = at(t, &["FROM"])?;
            let before = t[1..from].iter().any(|x| x.cls == Cls::Name);
            if !before || at(t, &["JOIN", "STRAIGHT_JOIN", "USING", "SELECT"]).is_some() {
                return None;
            }
            let e = at(t, &["WHERE", "RETURNING"]).unwrap_or(t.len());
            t.splice(e..e, [kw("USING"), damage::tok(name)]);
            Some("USING after tables before FROM")
        }
        // what follows is no query
        k if o.dialect == PG && flat(m) && !matches!(k, "Select" | "Update" | "WithQuery" | "Copy") && !m.s.toks.iter().any(|x| x.text == "$$") => {
            let q = [kw("SELECT"), Tok { cls: Cls::Int, ..damage::tok("1") }];
            let n = 1 + cx.c.small(4);
            let bad = cx.c.below(n + 1);
            let mut w = vec![kw("WITH")];
            for i in 0..=n {
                if i < n {
                    if i > 0 {
                        w.push(op(","));
                    }
                    w.extend([damage::tok(name), kw("AS"), op("(")]);
                }
                if i == bad {
                    w.append(&mut m.s.toks);
                } else {
                    w.extend(q.clone());
                }
                if i < n {
                    w.push(op(")"));
                }
            }
            m.s.toks = w;
            Some("statement in WITH")
        }
        _ => None,
    }
}

fn run(cx: &mut Ctx) -> Check {
    if cx.c.chance(1, 3) {
        let o = Opts::choose_any(&mut cx.c);
        let text = if cx.c.chance(2, 3) { wreck(cx, o) } else { mixed(cx, o, 1, 3).text };
        let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
        cx.log(|| format!("{:?} {:?} {}", e, o, show(&text)));
        sample(cx, &text);
        let r = exec::run(&text, &o, e)?;
        cx.meter(&r.meter);
        told(cx, &text, &r)?;
        cx.reached(hash(text.as_bytes()));
        return Ok(());
    }
    let o = Opts::choose(&mut cx.c);
    let mut m = messages(&mut cx.c, o, 1, 4, Only::Any);
    let mut why: Vec<Option<&'static str>> = Vec::new();
    for x in &mut m {
        let mut w = None;
        if cx.c.chance(2, 3) {
            w = clash(cx, o, x);
            if w.is_some() {
                cx.fault("clauses of two messages mixed");
            } else if cx.c.chance(1, 2) {
                // a reserved word is called
                for i in 0..x.s.toks.len().saturating_sub(1) {
                    if x.s.toks[i].cls == Cls::Kw && x.s.toks[i + 1].text == "(" && crate::gen::known_function(&x.s.toks[i].text.to_ascii_uppercase()) && cx.c.chance(1, 2) {
                        x.s.toks[i].text = (*cx.c.pick(RESERVED)).to_string();
                        cx.fault("name overwritten");
                    }
                }
            }
        }
        why.push(w);
    }
    let s = assemble(cx, o, &m, ";", true);
    cx.log(|| format!("{:?} {:?} {}", o, why, show(&s.text)));
    sample(cx, &s.text);
    let r = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    told(cx, &s.text, &r)?;
    if why.iter().any(|w| w.is_some()) && m.iter().zip(&why).all(|(x, w)| w.is_some() || flat(x)) {
        let g = groups(&s, &r)?;
        for (i, w) in why.iter().enumerate() {
            let Some(w) = w else { continue };
            ensure!(g[i].diags.iter().any(|d| d.error), "accepted together", "{} in statement {} on {}", w, i, show(&s.text));
            cx.st.add("messages that had to be refused", 1);
        }
    }
    cx.reached(hash(s.text.as_bytes()));
    Ok(())
}
