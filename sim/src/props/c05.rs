//! A torn statement is never accepted silently.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts};

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 700_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct torn texts",
    real: REAL,
    stub: STUB,
    assumptions: &["scripts use the default delimiter"],
};

/// Is the text inside a quoted string, a block comment or a bracket at its end?
pub fn open_at_end(s: &str) -> bool {
    let b = s.as_bytes();
    let mut depth = 0i64;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            q @ (b'\'' | b'"') => {
                i += 1;
                loop {
                    if i >= b.len() {
                        return true;
                    }
                    if b[i] == b'\\' {
                        i += 2;
                    } else if b[i] == q {
                        if b.get(i + 1) == Some(&q) {
                            i += 2;
                        } else {
                            i += 1;
                            break;
                        }
                    } else {
                        i += 1;
                    }
                }
            }
            b'`' => match b[i + 1..].iter().position(|c| *c == b'`') {
                Some(n) => i += n + 2,
                None => return true,
            },
            b'-' if b.get(i + 1) == Some(&b'-') => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            b'/' if b.get(i + 1) == Some(&b'*') => match s[i + 2..].find("*/") {
                Some(n) => i += n + 4,
                None => return true,
            },
            b'(' | b'[' => {
                depth += 1;
                i += 1;
            }
            b')' | b']' => {
                depth -= 1;
                i += 1;
            }
            _ => i += 1,
        }
    }
    depth > 0
}

/// Does the text end with a word or an operator that needs something after it?
/// Only for a text that ends outside of strings and block comments.
fn joined_at_end(s: &str, whole: bool) -> bool {
    let line = s.rsplit(['\n', '\r']).next().unwrap_or("");
    if line.contains("--") || line.contains('#') || line.contains("//") {
        return false;
    }
    match s.as_bytes().last() {
        Some(b',' | b'=' | b'<' | b'>' | b'+' | b'|' | b'&' | b'^') => return true,
        // half of a word may be another word
        Some(b'A'..=b'Z' | b'a'..=b'z') if whole => (),
        _ => return false,
    }
    let w = s.rsplit(|c: char| !(c.is_alphanumeric() || c == '_' || c == '$' || c == '@')).next().unwrap_or("");
    let before = s[..s.len() - w.len()].chars().next_back();
    if matches!(before, Some('`' | '"' | '\'' | '.')) {
        return false;
    }
    const NEEDS: &[&str] =
        &["AND", "XOR", "WHERE", "INTO", "BETWEEN", "THEN", "WHEN", "ELSE", "HAVING", "GROUP", "ORDER", "BY", "LIMIT", "FROM", "UNION", "JOIN"];
    NEEDS.iter().any(|n| n.eq_ignore_ascii_case(w))
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let s = mixed(cx, o, 1, 3);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let cuts = 1 + cx.c.below(6);
    for _ in 0..cuts {
        let i = cx.c.below(s.items.len());
        let it = &s.items[i];
        // inside a statement: something of it arrived, its terminator did not
        let p = it.start + 1 + cx.c.below(it.term.start - it.start);
        let t = crate::damage::tear(&mut cx.c, &s.text, p);
        if t.len() <= it.start || t[it.start..].trim().is_empty() {
            continue;
        }
        cx.fault("tail torn off");
        cx.log(|| format!("cut at {}", p));
        let r = exec::run(&t, &o, Entry::Script)?;
        cx.meter(&r.meter);
        ensure!(
            r.diags.iter().any(|d| d.error && d.span.start >= it.start),
            "torn statement accepted",
            "no error for {} after {}",
            show(&t[it.start..]),
            show(&t[..it.start])
        );
        let n = r.stmts.iter().filter(|x| dbg::extent(x).is_none_or(|e| e.end > it.start)).count();
        ensure!(n <= 1, "more statements than delivered", "{} for {}", n, show(&t[it.start..]));
        cx.reached(hash(t.as_bytes()));
    }
    // a single statement torn inside a quote, comment or bracket, or behind a joint
    for it in &s.items {
        if it.toks.is_empty() {
            continue;
        }
        for _ in 0..2 {
            let mut p = it.start + 1 + cx.c.below(it.body_end - it.start);
            if cx.c.chance(1, 2) {
                // behind a whole word
                let k = cx.c.below(it.toks.len());
                p = it.toks[k].1.end;
                let joint = |i: &usize| it.toks[*i].0.text == "," || it.toks[*i].0.text == "=";
                if cx.c.chance(1, 2) {
                    // the next joint, if there is one
                    p = (k..it.toks.len()).find(joint).map_or(p, |i| it.toks[i].1.end);
                }
            }
            let whole = it.toks.iter().any(|(t, q)| t.cls == Cls::Kw && q.end == p);
            let t = crate::damage::tear(&mut cx.c, &s.text[..it.body_end], p);
            if t.len() <= it.start || !(open_at_end(&t[it.start..]) || joined_at_end(&t[it.start..], whole)) {
                continue;
            }
            let t = &t[it.start..];
            cx.fault("single statement torn");
            cx.log(|| format!("single {}", show(t)));
            let r = exec::run(t, &o, Entry::Single)?;
            cx.meter(&r.meter);
            ensure!(r.errors() > 0, "torn single statement accepted", "no error for {}", show(t));
            cx.reached(hash(t.as_bytes()) ^ 1);
        }
    }
    Ok(())
}
