//! Delimiter commands govern exactly what follows them.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 500_000,
    thorough_s: 400,
    level: "exploration",
    rule: "distinct delivered scripts",
    real: REAL,
    stub: STUB,
    assumptions: &["the modelled delimiters are ; and $$; other ones are only checked not to panic, hang or leak"],
};

#[derive(Clone)]
enum Ev {
    /// Delimiter command
    Delim(&'static str),
    /// Statement with the terminator its client thinks is in force
    Stmt(Msg, &'static str),
}

/// Damage one word of a routine in front of its last inner terminator, such
/// that no nested list is opened or closed by that
fn hurt_inside(cx: &mut Ctx, m: &mut Msg) {
    let mut t = m.s.toks.clone();
    let Some(last) = t.iter().rposition(|t| t.text == ";") else { return };
    let i = cx.c.below(last);
    if t[i].text == ";" || matches!(t[i].text.to_ascii_uppercase().as_str(), "BEGIN" | "IF" | "CASE" | "END") {
        return;
    }
    let w = damage::foreign(&mut cx.c);
    if w.text == "END" {
        return;
    }
    if cx.c.chance(1, 2) {
        t[i] = w;
    } else {
        t.insert(i, w);
    }
    cx.fault("word damaged in a routine");
    m.damaged = Some(damage::spread(&mut cx.c, &t));
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let mut n = 0;
    let mut ev = Vec::new();
    let mut cur = ";";
    for i in 0..1 + cx.c.below(6) {
        if cx.c.chance(1, 3) {
            cur = if cx.c.chance(1, 4) {
                cur
            } else if cur == ";" {
                "$$"
            } else {
                ";"
            };
            ev.push(Ev::Delim(cur));
        } else {
            let only = if cx.c.chance(1, if cur == ";" { 6 } else { 2 }) { Only::Any } else { Only::Flat };
            let mut m = message(&mut cx.c, o, &mut n, only, i);
            // quoted bodies end at any delimiter
            if m.s.toks.iter().any(|t| t.text.contains("$$")) {
                continue;
            }
            if cx.c.chance(1, 4) {
                if flat(&m) {
                    damage_words(cx, &mut m);
                } else if m.s.compound {
                    hurt_inside(cx, &mut m);
                }
            }
            ev.push(Ev::Stmt(m, cur));
        }
    }
    // delivery
    let faults = cx.c.small(3);
    for _ in 0..faults {
        if ev.is_empty() {
            break;
        }
        let i = cx.c.below(ev.len());
        match cx.c.below(3) {
            0 => {
                ev.remove(i);
                cx.fault("message lost");
            }
            1 => {
                let x = ev[i].clone();
                let j = cx.c.below(ev.len() + 1);
                ev.insert(j, x);
                cx.fault("message duplicated");
            }
            _ => {
                let x = ev.remove(i);
                let j = cx.c.below(ev.len() + 1);
                ev.insert(j, x);
                cx.fault("message reordered");
            }
        }
    }
    // lay out and predict
    let mut text = String::new();
    let mut now = ";";
    // the current statement is followed by the wrong terminator: all up to the
    // next current one is skipped
    let mut lost = false;
    // start of what must be reported
    let mut bad: Vec<std::ops::Range<usize>> = Vec::new();
    let mut items: Vec<(Item, bool)> = Vec::new();
    let mut hurt: Vec<usize> = Vec::new();
    for e in &ev {
        if cx.c.chance(1, 4) {
            let mut k = String::new();
            gen::keepalive(&mut cx.c, &mut k, "\n");
            text.push_str(&k);
        }
        match e {
            Ev::Delim(d) => {
                text.push_str(cx.c.pick(&["DELIMITER ", "delimiter ", "Delimiter\n"]));
                text.push_str(d);
                // the command is not seen while skipping, but its delimiter may end that
                if !lost {
                    now = d;
                } else if *d == now {
                    bad.last_mut().unwrap().end = text.len();
                    lost = false;
                }
                text.push('\n');
                cx.st.add("delimiter commands", 1);
            }
            Ev::Stmt(m, t) => {
                if m.s.copy && (lost || *t != now) {
                    // its data would be skipped text or read later
                    continue;
                }
                let lists = m.s.compound || m.s.nesting();
                if (m.damaged.is_some() || lists) && (lost || *t != now) {
                    continue;
                }
                // the terminators of a damaged routine are its own only below another delimiter
                if m.damaged.is_some() && m.s.compound && now == ";" {
                    continue;
                }
                if m.damaged.is_some() {
                    let it = place(&mut cx.c, m, t, &mut text);
                    hurt.push(items.len());
                    items.push((it, false));
                    continue;
                }
                let it = place(&mut cx.c, m, t, &mut text);
                let mut good = !lost;
                if lost {
                    if *t == now {
                        bad.last_mut().unwrap().end = it.term.end;
                        lost = false;
                    }
                    good = false;
                } else if *t != now {
                    bad.push(it.start..text.len());
                    lost = true;
                    cx.fault("wrong terminator");
                }
                if lost {
                    // the statement before the wrong terminator may be returned
                    good = false;
                }
                if good || it.data.is_none() {
                    items.push((it, good));
                }
            }
        }
    }
    if lost {
        bad.last_mut().unwrap().end = text.len() + 1;
    }
    cx.log(|| format!("{:?} {}", o, show(&text)));
    sample(cx, &text);
    let r = exec::run(&text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    let dollar = o.args == 3;
    for d in &r.diags {
        if d.error {
            ensure!(
                bad.iter().any(|b| b.start <= d.span.start && d.span.end <= b.end)
                    || hurt.iter().any(|h| items[*h].0.start <= d.span.start && d.span.end <= items[*h].0.term.end),
                "error for a supported statement",
                "{} on {}",
                d.dump,
                show(&text)
            );
        }
    }
    for b in &bad {
        ensure!(r.diags.iter().any(|d| d.error && b.contains(&d.span.start)), "wrong terminator accepted", "{:?} of {}", b, show(&text));
    }
    let mut used = vec![false; r.stmts.len()];
    let mut delta = Some(0);
    for (ix, (it, good)) in items.iter().enumerate() {
        let mine: Vec<usize> = (0..r.stmts.len()).filter(|k| dbg::extent(&r.stmts[*k]).is_some_and(|e| it.start <= e.start && e.start < it.end())).collect();
        if hurt.contains(&ix) {
            ensure!(mine.len() <= 1, "damaged statement returned more than once", "{} times on {}", mine.len(), show(&text));
            let body = &text[it.start..it.body_end];
            ensure!(
                mine.len() == 1 || body.trim().is_empty() || r.diags.iter().any(|d| d.error && it.start <= d.span.start && d.span.start < it.term.end),
                "damaged statement lost without error",
                "{} on {}",
                show(body),
                show(&text)
            );
            for k in mine {
                ensure!(dbg::extent(&r.stmts[k]).is_some_and(|e| e.end <= it.term.end), "statement beyond terminator", "{} on {}", r.stmts[k], show(&text));
                used[k] = true;
            }
            delta = None;
            continue;
        }
        if !good {
            // the first statement of a skipped part may have been returned, no other
            let first = bad.iter().any(|b| b.start == it.start);
            ensure!(mine.len() <= first as usize, "skipped text returned", "{:?} on {}", mine, show(&text));
            for k in mine {
                used[k] = true;
            }
            delta = None;
            continue;
        }
        let (t, e) = if it.data.is_some() { (format!("{};{}", &text[it.start..it.body_end], &text[it.term.end..it.end()]), Entry::Script) } else { (text[it.start..it.body_end].to_string(), Entry::Single) };
        let want = exec::run(&t, &o, e)?;
        cx.meter(&want.meter);
        ensure!(mine.len() == want.stmts.len(), "not returned once", "{} times: {} on {}", mine.len(), show(&t), show(&text));
        for (k, w) in mine.iter().zip(&want.stmts) {
            used[*k] = true;
            if it.data.is_some() && dbg::variant(w) == "Stdin" {
                let x = dbg::elems(&r.stmts[*k]).into_iter().next();
                let y = dbg::elems(w).into_iter().next();
                ensure!(x.map(|x| x.0) == y.map(|y| y.0), "data", "{} on {}", r.stmts[*k], show(&text));
                continue;
            }
            if let Err(d) = same(&r.stmts[*k], w, it.start as i64, &mut delta, dollar) {
                return fail("differs from default delimiter", format!("{} for {} on {}", d, show(&t), show(&text)));
            }
        }
        delta = delta.map(|d| d + placeholders(it));
    }
    if let Some(k) = used.iter().position(|u| !u) {
        return fail("from nowhere", format!("{} on {}", r.stmts[k], show(&text)));
    }
    // torn anywhere, or with other delimiters: no crash, and the next call starts afresh
    let mut t = text.clone();
    if cx.c.chance(1, 2) {
        t.push_str(cx.c.pick(&["DELIMITER", "DELIMITER $$", "DELIMITER x SELECT 1 x", "DELIMITER '", "DELIMITER ;", "\nDELIMITER //\n", "DELIMITER DELIMITER", "DELIMITER (", "DELIMITER \\"]));
    }
    let p = cx.c.below(t.len() + 1);
    let t = crate::damage::tear(&mut cx.c, &t, p);
    cx.fault("delimiter commands torn");
    let x = exec::run(&t, &o, Entry::Script)?;
    cx.meter(&x.meter);
    let again = exec::run("SELECT 1 ; SELECT 2;", &o, Entry::Script)?;
    ensure!(again.stmts.len() == 2 && again.errors() == 0, "delimiter leaked", "after {}: {}", show(&t), again.dump());
    cx.reached(hash(text.as_bytes()));
    Ok(())
}
