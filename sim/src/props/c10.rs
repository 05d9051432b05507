//! Names, literals and placeholders are conserved.

use super::*;
use crate::dbg::Elem;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts, Val};
use std::collections::HashMap;
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 850_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct scripts",
    real: REAL,
    stub: STUB,
    assumptions: &["words the library is documented not to keep (for example the name of a collation) are not tracked"],
};

/// Placeholders of whatever arrived
fn damaged(cx: &mut Ctx) -> Check {
    let o = Opts::choose_any(&mut cx.c);
    let text = if cx.c.chance(1, 2) { wreck(cx, o) } else { mixed(cx, o, 1, 6).text };
    cx.log(|| format!("{:?} {}", o, show(&text)));
    sample(cx, &text);
    let r = exec::run(&text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    let mut got = Vec::new();
    for d in &r.stmts {
        for (el, p) in dbg::elems(d) {
            if let Elem::Arg(n) | Elem::List(n) = el {
                got.push((p.start, p.end, n));
            }
        }
    }
    got.sort_unstable();
    cx.st.add("placeholders of damaged scripts", got.len() as u64);
    let mut next = 0;
    let mut seen = 0;
    let mut from = 0;
    for (a, b, n) in got {
        let Some(w) = text.get(a..b) else {
            return fail("placeholder", format!("{}..{} on {}", a, b, show(&text)));
        };
        if let Some(v) = w.strip_prefix('$') {
            ensure!(v.parse() == Ok(n + 1), "number", "{} for {} at {} on {}", n, w, a, show(&text));
            continue;
        }
        ensure!(n >= next, "number used before", "{} at {} on {}", n, a, show(&text));
        // no more than what looks like one in front of it
        seen += text[from..a].matches(['?', '%']).count() + text[from..a].to_ascii_uppercase().matches("_LIST_").count();
        from = a;
        ensure!(n <= seen, "number left out", "{} at {} on {}", n, a, show(&text));
        next = n + 1;
    }
    cx.reached(hash(text.as_bytes()));
    Ok(())
}

/// A name used again in the same statement, perhaps with other capitals
fn again(cx: &mut Ctx, m: &mut Msg) {
    let plain = |t: &crate::gen::Tok| {
        t.cls == Cls::Name
            && t.val == Val::Text(t.text.clone())
            && t.text.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
            && t.text.ends_with(|c: char| c.is_ascii_digit())
    };
    let at: Vec<usize> = (0..m.s.toks.len()).filter(|i| plain(&m.s.toks[*i])).collect();
    if at.len() < 2 {
        return;
    }
    for _ in 0..1 + cx.c.below(2) {
        // most often neighbours
        let i = cx.c.below(at.len() - 1);
        let j = if cx.c.chance(2, 3) { i + 1 } else { i + 1 + cx.c.below(at.len() - 1 - i) };
        let mut t = m.s.toks[at[i]].text.clone();
        if cx.c.chance(1, 2) {
            t = t.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        }
        let k = &mut m.s.toks[at[j]];
        k.val = Val::Text(t.clone());
        k.text = t;
        cx.st.add("names used again", 1);
    }
}

fn run(cx: &mut Ctx) -> Check {
    if cx.c.chance(1, 4) {
        return damaged(cx);
    }
    let o = Opts::choose(&mut cx.c);
    let mut m = messages(&mut cx.c, o, 1, 4, Only::Any);
    if cx.c.chance(1, 5) {
        for x in &mut m {
            again(cx, x);
        }
    }
    let m = deliver(cx, m);
    let s = assemble(cx, o, &m, ";", true);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let single = s.items.len() == 1 && !s.text[..s.items[0].start].contains(';') && s.items[0].data.is_none() && cx.c.chance(1, 2);
    let (text, e) = if single { (&s.text[..s.items[0].body_end], Entry::Single) } else { (s.text.as_str(), Entry::Script) };
    let r = exec::run(text, &o, e)?;
    cx.meter(&r.meter);
    ensure!(r.errors() == 0, "error for a supported script", "{} on {}", r.diag_dump(), show(text));
    let mut got: HashMap<(usize, usize), Elem> = HashMap::new();
    for d in &r.stmts {
        for (el, p) in dbg::elems(d) {
            if el == Elem::Span {
                continue;
            }
            if el == Elem::Name(String::new()) && p == (0..0) {
                continue;
            }
            if let Some(x) = got.insert((p.start, p.end), el.clone()) {
                return fail("returned twice", format!("{:?} and {:?} at {:?} on {}", x, el, p, show(text)));
            }
        }
    }
    let mut arg = 0usize;
    let mut seen = 0;
    for it in &s.items {
        for (t, p) in &it.toks {
            let p: Range<usize> = p.clone();
            // placeholders count even where they are not kept
            let mut number = None;
            if t.cls == Cls::Arg {
                number = match &t.val {
                    Val::Arg(Some(n)) => Some(*n),
                    _ => {
                        arg += 1;
                        Some(arg - 1)
                    }
                };
            }
            if !t.track {
                // need not be kept
                got.remove(&(p.start, p.end));
                continue;
            }
            seen += 1;
            if let Val::Pair(a, b) = t.val {
                let k = got.iter().find(|(k, v)| k.0 == p.start && **v == Elem::Pair(a, b)).map(|x| *x.0);
                match k {
                    Some(k) => got.remove(&k),
                    None => return fail("lost", format!("{:?} at {:?} on {}", t.val, p, show(text))),
                };
                continue;
            }
            let Some(el) = got.remove(&(p.start, p.end)) else {
                return fail("lost", format!("{:?} {:?} at {:?} on {}", t.cls, t.text, p, show(text)));
            };
            let same = match (&t.val, &el, t.cls) {
                (Val::Text(v), Elem::Name(w), Cls::Name) | (Val::Text(v), Elem::Str(w), Cls::Str) => v == w,
                (Val::Int(v), Elem::Num(w), _) => w.parse::<u64>() == Ok(*v),
                (Val::Float(v), Elem::Num(w), _) => w.parse::<f64>() == Ok(*v),
                (Val::Arg(_), Elem::Arg(n), _) => Some(*n) == number,
                (Val::Arg(_), Elem::List(n), _) => Some(*n) == number,
                _ => false,
            };
            ensure!(same, "value", "{:?} instead of {:?} (number {:?}) at {:?} on {}", el, t.val, number, p, show(text));
        }
        if let Some((d, _)) = &it.data {
            match got.remove(&(d.start, d.end)) {
                Some(Elem::Data(v)) if v == text[d.clone()] => (),
                x => return fail("data", format!("{:?} at {:?} on {}", x, d, show(text))),
            }
        }
    }
    if let Some((p, el)) = got.iter().next() {
        return fail("from nowhere", format!("{:?} at {:?} on {}", el, p, show(text)));
    }
    cx.st.add("words tracked", seen);
    cx.reached(hash(text.as_bytes()));
    Ok(())
}
