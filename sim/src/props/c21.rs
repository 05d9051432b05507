//! The value of a string is what is written between its quotes.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts, PG};

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    quick: 300_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct texts",
    real: REAL,
    stub: STUB,
    assumptions: &["only quotes are decoded: other backslash escapes are part of the value, as the library keeps them"],
};

/// Value of the strings in a text that holds nothing but strings, white
/// space and comments
pub fn value(t: &str) -> Option<String> {
    let mut v = String::new();
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut any = false;
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\n' | '\r' => i += 1,
            '-' | '/' if c.get(i + 1) == Some(&c[i]) => {
                while i < c.len() && !matches!(c[i], '\r' | '\n') {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while !(c.get(i)? == &'*' && c.get(i + 1)? == &'/') {
                    i += 1;
                }
                i += 2;
            }
            q @ ('\'' | '"') => {
                any = true;
                i += 1;
                loop {
                    let x = *c.get(i)?;
                    if x == q {
                        if c.get(i + 1) != Some(&q) {
                            i += 1;
                            break;
                        }
                        v.push(q);
                        i += 2;
                    } else if x == '\\' {
                        let y = *c.get(i + 1)?;
                        if y != q {
                            v.push('\\');
                        }
                        v.push(y);
                        i += 2;
                    } else {
                        v.push(x);
                        i += 1;
                    }
                }
            }
            _ => return None,
        }
    }
    any.then_some(v)
}

/// Characters that may arrive in a string
fn inside(c: &mut Choices, q: char) -> String {
    let mut s = String::new();
    for _ in 0..c.below(8) {
        match c.below(14) {
            0 | 1 => {
                s.push(q);
                s.push(q);
            }
            2 | 3 => {
                s.push('\\');
                s.push(q);
            }
            4 => s.push_str("\\\\"),
            5 => {
                s.push('\\');
                s.push(*c.pick(&['n', 't', '0', '%', '_', 'é', '`', ';', ' ', 'Z', 'x', '\n', '\u{1F600}', '\'', '"', '\\']));
            }
            6 => s.push(if q == '\'' { '"' } else { '\'' }),
            7 => s.push_str(if q == '\'' { "\"\"" } else { "''" }),
            8 => s.push(*c.pick(&['`', ';', '(', ')', ',', '#', '?', '$'])),
            9 => s.push_str(c.pick(&["--", "/*", "*/", "//", "$$", "; SELECT 1", "DELIMITER $$", "END", "\n\\.\n", "%s"])),
            10 => s.push(*c.pick(&['\n', '\r', '\t', '\0', '\u{7f}', '\u{feff}', '\u{a0}'])),
            11 => s.push(*c.pick(&['é', 'ß', '\u{1F600}', '\u{2028}', '中'])),
            _ => s.push(*c.pick(&['a', 'Z', '0', ' ', '_', '.', 'e'])),
        }
    }
    s
}

fn run(cx: &mut Ctx) -> Check {
    let (text, o, e, places) = if cx.c.chance(2, 3) {
        let o = Opts::choose(&mut cx.c);
        let mut m = messages(&mut cx.c, o, 1, 3, Only::Any);
        for x in &mut m {
            let mut body = false;
            for t in &mut x.s.toks {
                body ^= t.text == "$$" && x.s.kind != "Do";
                // what holds an interval or a code is not free
                let free = t.cls == Cls::Str && !body && t.track;
                if free && cx.c.chance(2, 3) {
                    let k = 1 + cx.c.small(2);
                    let mut s = String::new();
                    for i in 0..k {
                        if i > 0 {
                            gen::space(&mut cx.c, &mut s);
                        }
                        let q = if o.dialect != PG && (t.text.starts_with('"') || i > 0) && cx.c.chance(1, 2) { '"' } else { '\'' };
                        s.push(q);
                        s.push_str(&inside(&mut cx.c, q));
                        s.push(q);
                    }
                    t.text = s;
                    cx.fault("string overwritten");
                }
            }
        }
        let m = deliver(cx, m);
        let s = assemble(cx, o, &m, ";", true);
        let p: Vec<_> = s
            .items
            .iter()
            .flat_map(|it| {
                let mut body = false;
                it.toks.iter().filter(move |(t, _)| {
                    body ^= t.text == "$$" && it.kind != "Do";
                    t.cls == Cls::Str && t.track && !body
                })
            })
            .map(|(_, p)| p.clone())
            .collect();
        (s.text, o, Entry::Script, Some(p))
    } else {
        let o = Opts::choose_any(&mut cx.c);
        let t = wreck(cx, o);
        let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
        (t, o, e, None)
    };
    cx.log(|| format!("{:?} {:?} {}", e, o, show(&text)));
    sample(cx, &text);
    let r = exec::run(&text, &o, e)?;
    cx.meter(&r.meter);
    let mut found = Vec::new();
    for d in &r.stmts {
        for (el, p) in dbg::elems(d) {
            let dbg::Elem::Str(v) = el else { continue };
            let at = text.get(p.clone()).unwrap_or("");
            let want = value(at);
            ensure!(want.as_ref() == Some(&v), "value of a string", "{:?} for {:?} at {:?} on {}", v, at, p, show(&text));
            found.push((p.start, p.end));
        }
    }
    cx.st.add("strings compared", found.len() as u64);
    if let Some(places) = places {
        ensure!(r.errors() == 0, "error for a supported script", "{} on {}", r.diag_dump(), show(&text));
        for p in places {
            ensure!(found.contains(&(p.start, p.end)), "string lost", "{:?} at {:?} on {}", &text[p.clone()], p, show(&text));
        }
    }
    cx.reached(hash(text.as_bytes()));
    Ok(())
}
