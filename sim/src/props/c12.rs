//! Inline bulk data is delivered exactly.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::Opts;
use crate::words::CORE;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 1_200_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct delivered streams",
    real: REAL,
    stub: STUB,
    assumptions: &["terminated by the default or the $$ delimiter"],
};

/// Data lines of a client; none is the end line
fn lines(cx: &mut Ctx) -> String {
    if cx.c.chance(1, 2) {
        return script::data(&mut cx.c);
    }
    let mut s = String::new();
    for _ in 0..cx.c.below(6) {
        for _ in 0..cx.c.below(4) {
            match cx.c.below(4) {
                0 => s.push_str(CORE[cx.c.below(CORE.len())]),
                1 => s.push(char::from_u32(cx.c.below(0x300) as u32).filter(|c| *c != '\n').unwrap_or(' ')),
                2 => s.push_str(cx.c.pick(&["\\", ".", "\\.", ";", "$$", "'", "\"", "\t", " ", "\r", "\u{2028}", "\u{85}"])),
                _ => s.push_str(cx.c.pick(&["1", "a", ",", "/*", "--", "COPY t (a) FROM STDIN;", "\\\\", "\\N"])),
            }
        }
        s.push('\n');
    }
    // the client escapes what would be an end line
    s.split_inclusive('\n').map(|l| if l == "\\.\n" { "\\\\.\n" } else { l }).collect()
}

/// Statements in a block, some with data
fn list(cx: &mut Ctx, o: Opts, depth: usize, n: &mut usize, text: &mut String, data: &mut Vec<String>) {
    for _ in 0..1 + cx.c.small(3) {
        if depth > 0 && cx.c.chance(1, 4) {
            block(cx, o, depth - 1, n, text, data);
            text.push_str(" ; ");
            continue;
        }
        let only = if cx.c.chance(1, 2) { Only::Copy } else { Only::Flat };
        let m = message(&mut cx.c, o, n, only, 0);
        // these may not stand in a block
        if m.s.toks.iter().any(|t| t.text.contains("$$")) || !m.s.copy && !matches!(m.s.kind, "Select" | "InsertReplace" | "Delete" | "Update" | "DropTable") {
            continue;
        }
        if cx.c.chance(1, 6) {
            text.push_str(" ; ");
        }
        script::layout(&mut cx.c, &m.s.toks, text);
        text.push_str(" ;");
        if m.s.copy {
            if cx.c.chance(1, 4) {
                text.push_str(cx.c.pick(&[" ", "\t", " \r", "\r"]));
            }
            text.push('\n');
            let d = lines(cx);
            text.push_str(&d);
            text.push_str("\\.\n");
            data.push(d);
        }
    }
}

fn block(cx: &mut Ctx, o: Opts, depth: usize, n: &mut usize, text: &mut String, data: &mut Vec<String>) {
    text.push_str(" IF 1 THEN ");
    // a branch holds something
    text.push_str("COMMIT ; ");
    list(cx, o, depth, n, text, data);
    if cx.c.chance(1, 3) {
        text.push_str(" ELSEIF 2 THEN COMMIT ; ");
        list(cx, o, depth, n, text, data);
    }
    if cx.c.chance(1, 3) {
        text.push_str(" ELSE COMMIT ; ");
        list(cx, o, depth, n, text, data);
    }
    text.push_str(" END IF");
}

/// Bulk loads inside of blocks
fn nested(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let term = if cx.c.chance(1, 3) { "$$" } else { ";" };
    let mut text = String::new();
    if term != ";" {
        text.push_str("DELIMITER $$\n");
    }
    let mut data = Vec::new();
    let mut n = 0;
    let k = 1 + cx.c.small(2);
    for _ in 0..k {
        block(cx, o, 2, &mut n, &mut text, &mut data);
        text.push_str(term);
    }
    text.push_str("COMMIT ");
    text.push_str(term);
    cx.log(|| format!("{:?} {}", o, show(&text)));
    sample(cx, &text);
    let r = exec::run(&text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    ensure!(r.errors() == 0, "error", "{} on {}", r.diag_dump(), show(&text));
    ensure!(r.stmts.len() == k + 1, "number of statements", "{} instead of {} on {}", r.stmts.len(), k + 1, show(&text));
    let got: Vec<_> = r.stmts.iter().flat_map(|s| dbg::elems(s)).filter_map(|(e, p)| if let dbg::Elem::Data(v) = e { Some((v, p)) } else { None }).collect();
    ensure!(got.len() == data.len(), "data in blocks", "{} instead of {} on {}", got.len(), data.len(), show(&text));
    for ((v, p), d) in got.iter().zip(&data) {
        ensure!(v == d && text.get(p.clone()) == Some(d), "data", "{:?} at {:?} instead of {:?} on {}", v, p, d, show(&text));
    }
    cx.st.add("data in blocks", data.len() as u64);
    cx.reached(hash(text.as_bytes()));
    Ok(())
}

fn run(cx: &mut Ctx) -> Check {
    if cx.c.chance(1, 4) {
        return nested(cx);
    }
    let o = Opts::choose(&mut cx.c);
    let term = if cx.c.chance(1, 4) { "$$" } else { ";" };
    let k = 1 + cx.c.below(4);
    let mut text = String::new();
    if term != ";" {
        text.push_str("DELIMITER $$\n");
    }
    // what the receiver must deliver: kind and data of each
    let mut want: Vec<(&'static str, Option<String>)> = Vec::new();
    let mut n = 0;
    let mut torn = false;
    for i in 0..k {
        let only = if i == 0 || cx.c.chance(1, 2) { Only::Copy } else { Only::Flat };
        let m = message(&mut cx.c, o, &mut n, only, i);
        if m.s.toks.iter().any(|t| t.text.contains("$$")) {
            continue;
        }
        if cx.c.chance(1, 4) {
            gen::keepalive(&mut cx.c, &mut text, term);
        }
        script::layout(&mut cx.c, &m.s.toks, &mut text);
        text.push(' ');
        text.push_str(term);
        if !m.s.copy {
            want.push((m.s.kind, None));
            continue;
        }
        want.push((m.s.kind, None));
        if cx.c.chance(1, 4) {
            text.push_str(cx.c.pick(&[" ", "\t", " \r", "\u{c} ", "\r"]));
        }
        text.push('\n');
        let mut d = lines(cx);
        let last = i + 1 == k;
        let fault = cx.c.below(6);
        if fault == 0 {
            // the end line is lost: everything up to the next one is data
            cx.fault("end line lost");
            let mut rest = d;
            if !last {
                let j = cx.c.below(3);
                for _ in 0..j {
                    let m = message(&mut cx.c, o, &mut n, Only::Flat, 0);
                    script::layout(&mut cx.c, &m.s.toks, &mut rest);
                    rest.push_str(";\n");
                }
                rest = rest.split_inclusive('\n').filter(|l| *l != "\\.\n").collect();
                text.push_str(&rest);
                text.push_str("\\.\n");
                want.push(("Stdin", Some(rest)));
            } else {
                text.push_str(&rest);
                want.push(("Stdin", Some(rest)));
                torn = true;
            }
        } else if fault == 1 && last {
            // torn anywhere in the data or its end line
            d.push_str("\\.\n");
            let at = cx.c.below(d.len() + 1);
            let t = crate::damage::tear(&mut cx.c, &d, at);
            cx.fault("inline data torn");
            let from = text.len();
            text.push_str(&t);
            let mut w = super::c04::arrived(&format!("\n{}", t)).to_string();
            if from == text.len() {
                w = String::new();
            }
            want.push(("Stdin", Some(w)));
            torn = true;
        } else {
            text.push_str(&d);
            text.push_str("\\.");
            if !(last && cx.c.chance(1, 4)) {
                text.push('\n');
            } else {
                torn = true;
            }
            want.push(("Stdin", Some(d)));
        }
    }
    if !torn && cx.c.chance(1, 2) {
        text.push_str("\nCOMMIT ");
        text.push_str(term);
        want.push(("Commit", None));
    }
    cx.log(|| format!("{:?} {}", o, show(&text)));
    sample(cx, &text);
    let r = exec::run(&text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    ensure!(r.errors() == 0, "error", "{} on {}", r.diag_dump(), show(&text));
    ensure!(r.stmts.len() == want.len(), "number of statements", "{} instead of {}: {} on {}", r.stmts.len(), want.len(), r.stmts.join("\n"), show(&text));
    for (s, (k, d)) in r.stmts.iter().zip(&want) {
        ensure!(dbg::variant(s) == *k, "kind", "{} instead of {} on {}", s, k, show(&text));
        if let Some(d) = d {
            match dbg::elems(s).first() {
                Some((dbg::Elem::Data(v), p)) => {
                    ensure!(v == d, "data", "{:?} instead of {:?} on {}", v, d, show(&text));
                    ensure!(text.get(p.clone()) == Some(d), "position of data", "{:?} is {:?} on {}", p, text.get(p.clone()), show(&text));
                }
                x => return fail("data", format!("{:?} on {}", x, show(&text))),
            }
        }
    }
    cx.reached(hash(text.as_bytes()));
    Ok(())
}
