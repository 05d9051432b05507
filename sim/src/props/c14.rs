//! Work and memory stay proportional and are all released.

use super::*;
use crate::ensure;
use crate::exec::{call, guarded, hash, Check, End, Entry, Limits, Meter};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 130_000,
    thorough_s: 480,
    level: "exploration",
    rule: "distinct texts measured",
    real: REAL,
    stub: "clients, delivery and caller are simulated; memory is counted by the allocator of the simulator",
    assumptions: &["budgets per byte of text are fixed numbers, several times what the library needs"],
};

/// Parse and drop
fn measure(text: &str, o: &Opts, e: Entry, crash: Option<u64>) -> Result<(Meter, i64, usize), Violation> {
    let lim = Limits { crash_at: crash, ..Limits::for_len(text.len()) };
    let mut parsed = Default::default();
    let mut diags = 0;
    let (end, m) = guarded(lim, || {
        let mut issues = Issues::new(text);
        let s = call(text, &mut issues, o, e);
        parsed = crate::alloc::get();
        diags = issues.get().len();
        drop(s);
        drop(issues);
    });
    match end {
        End::Done(()) | End::Crashed => (),
        end => crate::exec::must(end, text, &lim)?,
    }
    let _ = parsed;
    Ok((m, m.mem.live, diags))
}

/// An element of a list of a supported statement is delivered over and over:
/// what it takes must not grow faster than the text
fn growth(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let m = message(&mut cx.c, o, &mut 0, Only::Any, 0);
    let t = &m.s.toks;
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i].text.as_str(), "," | ";" | "AND" | "OR" | "+" | "WHEN" | "JOIN")).collect();
    let from = if at.is_empty() || cx.c.chance(1, 10) { cx.c.below(t.len()) } else { *cx.c.pick(&at) };
    let mut to = from + 1;
    if cx.c.chance(3, 4) {
        // up to the next separator or the end of the list
        let mut open = 0;
        while to < t.len() {
            match t[to].text.as_str() {
                "(" => open += 1,
                ")" if open == 0 => break,
                ")" => open -= 1,
                x if open == 0 && x == t[from].text => break,
                _ => (),
            }
            to += 1;
        }
    } else {
        to = (from + 1 + cx.c.below(6)).min(t.len());
    }
    let (head, part, tail) = (damage::join(&t[..from]), damage::join(&t[from..to]), damage::join(&t[to..]));
    let size = *cx.c.pick(&[4_000usize, 12_000, 30_000]);
    let n = (size / (part.len() + 1)).clamp(8, 3_000);
    let text = |n: usize| format!("{} {} {};", head, format!("{} ", part).repeat(n), tail);
    // what nests or chains is limited to what the stack takes
    let (n, few) = if matches!(t[from].text.as_str(), "AND" | "OR" | "+" | "JOIN") || !matches!(t[from].text.as_str(), "," | ";" | "WHEN") {
        (n.min(400), n.min(400) / 4)
    } else {
        (n, n / 4)
    };
    let (small, large) = (text(few), text(n));
    cx.fault("part delivered over and over");
    cx.log(|| format!("{:?} {} times {}", o, n, show(&part)));
    sample(cx, &small);
    let (a, la, da) = measure(&small, &o, Entry::Script, None)?;
    let (b, lb, db) = measure(&large, &o, Entry::Script, None)?;
    cx.meter(&a);
    cx.meter(&b);
    ensure!(la == 0 && lb == 0, "memory kept", "{} and {} bytes after parsing {}", la, lb, show(&small));
    let f = large.len() as u64 / small.len() as u64 + 1;
    // lists take up to twice what they hold
    let all = 2 * f * a.mem.total + 20_000;
    ensure!(b.mem.total <= all, "memory grows faster than the text", "{} bytes, then {} for {} times the text, {} times {} in {}", a.mem.total, b.mem.total, f, n, show(&part), show(&small));
    ensure!(b.mem.peak <= 2 * f as i64 * a.mem.peak + 20_000, "memory grows faster than the text", "{} bytes held, then {} for {} times the text, {} times {} in {}", a.mem.peak, b.mem.peak, f, n, show(&part), show(&small));
    ensure!(b.tokens <= 2 * f * a.tokens + 50, "reads grow faster than the text", "{} then {}: {} times {} in {}", a.tokens, b.tokens, n, show(&part), show(&small));
    ensure!(db as u64 <= f * da as u64 + large.len() as u64, "diagnostics grow faster than the text", "{} then {}: {} times {} in {}", da, db, n, show(&part), show(&small));
    cx.reached(hash(large.as_bytes()));
    Ok(())
}

fn run(cx: &mut Ctx) -> Check {
    if cx.c.chance(1, 16) {
        return growth(cx);
    }
    let o = Opts::choose_any(&mut cx.c);
    let e = if cx.c.chance(1, 4) { Entry::Single } else { Entry::Script };
    let mut text = if cx.c.chance(1, 2) { wreck(cx, o) } else { mixed(cx, o, 1, 4).text };
    // a message or a part of it is delivered over and over
    match cx.c.below(if cx.thorough { 40 } else { 80 }) {
        k @ 0..=2 => {
            let size = if k == 0 { 1_000_000 } else { 100_000 };
            if cx.c.chance(1, 2) && !text.to_ascii_uppercase().contains("DELIMITER") {
                text.push_str("\n;\n");
                text = text.repeat(size / text.len() + 1);
            } else {
                let (head, link) = *cx.c.pick(LISTS);
                text = format!("{}{}", head, link.repeat(size / link.len()));
            }
            cx.fault("delivered over and over");
        }
        3..=20 => {
            let a = boundary(&mut cx.c, &text);
            let b = boundary(&mut cx.c, &text);
            let (a, b) = (a.min(b), a.max(b));
            let n = 2 + cx.c.below(40);
            let x = text[a..b].repeat(n);
            text.insert_str(a, &x);
            cx.fault("part delivered over and over");
        }
        _ => (),
    }
    cx.log(|| format!("{:?} {:?} {} bytes {}", e, o, text.len(), show(&text)));
    sample(cx, &text);
    let len = text.len() as u64;
    let (m, live, diags) = measure(&text, &o, e, None)?;
    cx.meter(&m);
    ensure!(live == 0, "memory kept", "{} bytes after parsing {}", live, show(&text));
    if std::env::var("SIM_MEASURE").is_ok() && len >= 20 {
        println!("M {:.3} {:.1} {:.3} {:.1} {} {}", m.tokens as f64 / len as f64, m.mem.total as f64 / len as f64, diags as f64 / len as f64, m.mem.peak as f64 / len as f64, len, cut(&text, 60).replace('\n', " "));
    }
    ensure!(m.tokens <= 2 * len + 50, "too many tokens read", "{} for {} bytes: {}", m.tokens, len, show(&text));
    ensure!(m.stdin <= len + 1, "inline data read too often", "{} for {} bytes: {}", m.stdin, len, show(&text));
    ensure!(diags as u64 <= len + 20, "too many diagnostics", "{} for {} bytes: {}", diags, len, show(&text));
    ensure!(m.mem.total <= 4_000 * len + 60_000, "too much memory requested", "{} for {} bytes: {}", m.mem.total, len, show(&text));
    // abandoned half way
    if m.steps() > 0 {
        for _ in 0..2 {
            let p = cx.c.below(m.steps().min(u32::MAX as u64) as usize) as u64;
            let (c, live, _) = measure(&text, &o, e, Some(p))?;
            cx.meter(&c);
            cx.fault("parse abandoned");
            ensure!(live == 0, "memory kept", "{} bytes after abandoning at step {}: {}", live, p, show(&text));
        }
    }
    cx.reached(hash(text.as_bytes()));
    Ok(())
}

/// Lists of any length
const LISTS: &[(&str, &str)] = &[
    ("SELECT 1", ", a.b AS c"),
    ("SELECT 1", ", (1)"),
    ("INSERT INTO t VALUES (1)", ", (1, 'a')"),
    ("INSERT INTO t VALUES (1", ", 2"),
    ("INSERT INTO t (a", ", b"),
    ("INSERT INTO t SET a = 1", ", b = 2"),
    ("UPDATE t SET a = 1", ", b = (2)"),
    ("CREATE TABLE t (a INT", ", b VARCHAR(10) NOT NULL DEFAULT 'a'"),
    ("ALTER TABLE t ADD a INT", ", ADD b INT"),
    ("DROP TABLE a", ", b.c"),
    ("TRUNCATE TABLE a", "; TRUNCATE TABLE a"),
    ("SELECT '", "a''b\\n"),
    ("SELECT 1 /*", " * "),
    ("SELECT 1", " ) ( "),
    ("", "'"),
    ("", "\""),
    ("", "`"),
    ("", "$$"),
    ("", "( "),
    ("", ") "),
    ("", "x "),
    ("", "; "),
    ("", "@"),
    ("", "\u{1F600}"),
    ("", "DELIMITER $$ "),
    ("", "DELIMITER ; "),
    ("COPY t (a) FROM STDIN;\n", "\\"),
    ("COPY t (a) FROM STDIN;\n", "\\.\nCOPY t (a) FROM STDIN;\n"),
    ("SELECT 1;", "SELECT;"),
    ("", "CASE; IF; BEGIN; "),
    ("CREATE TRIGGER t AFTER INSERT ON a FOR EACH ROW BEGIN ", "SELECT 1; "),
    ("CREATE TRIGGER t AFTER INSERT ON a FOR EACH ROW BEGIN ", "IF 1 THEN SELECT; "),
    ("CREATE TRIGGER t AFTER INSERT ON a FOR EACH ROW BEGIN ", "x "),
    ("RENAME TABLE a TO b", ", c TO d"),
    ("SELECT * FROM a", ", b"),
    ("SELECT JSON_OBJECT(1", ", 'a', 2"),
    ("SELECT * FROM t WHERE a IN (1", ", 2"),
    ("SELECT CASE", " WHEN 1 THEN 2"),
    ("SELECT a FROM t ORDER BY a", ", b DESC"),
    ("SELECT 'a'", " 'b'"),
    ("-- ", "x"),
    ("SELECT ", "a"),
    ("SELECT ", "1"),
    ("WITH a AS (SELECT 1)", ", b AS (DELETE FROM c)"),
    ("CREATE TYPE a AS ENUM ('a'", ", 'b'"),
];
