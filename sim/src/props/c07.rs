//! Damaged input never crashes or hangs a caller.

use super::*;
use crate::exec::{self, guarded, hash, must, Check, Entry, Limits};
use crate::gen::Opts;
use std::fmt::Write;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 1_500_000,
    thorough_s: 780,
    level: "exploration",
    rule: "distinct texts parsed, used, cloned, printed, rendered and dropped",
    real: REAL,
    stub: STUB,
    assumptions: &[
        "release build, 2 MiB stack (the default of a spawned thread)",
        "flat chains of operators or joins are kept below 400 links, longer ones are a known finding",
    ],
};

/// What may be repeated to nest
const OPENERS: &[&str] = &[
    "(", "((", "SELECT (", "(SELECT ", "SELECT * FROM (", "SELECT * FROM (SELECT 1 AS a) AS b JOIN (", "NOT (", "NOT ", "-", "- ", "~", "!", "CASE ", "CASE WHEN ", "CASE 1 WHEN ", "CASE WHEN 1 THEN ",
    "CASE WHEN 1 THEN 2 ELSE ", "IF(", "ABS(", "COUNT(", "CAST(", "CAST((", "a IN (", "1 IN (SELECT ", "EXISTS (", "EXISTS (SELECT ", "EXTRACT(DAY FROM ", "GROUP_CONCAT(", "JSON_OBJECT(", "x(", "a.b(",
    "1 + (", "1 + ", "a AND (", "a BETWEEN (", "INTERVAL (", "INTERVAL ", "TIMESTAMPADD(DAY, ", "CHAR(", "CONVERT(", "LEFT(", "VALUES (", "ARRAY[", "[", "{", "WITH a AS (", "WITH a AS (SELECT ", "WITH a AS (DELETE FROM b) ",
    "IF 1 THEN ", "IF (", "BEGIN ", "BEGIN\n", "CASE 1 WHEN 1 THEN SELECT 1; ", "CASE WHEN 1 THEN IF 1 THEN ", "CREATE TRIGGER t AFTER INSERT ON a FOR EACH ROW BEGIN ", "CREATE TRIGGER t AFTER INSERT ON a FOR EACH ROW ",
    "CREATE VIEW v AS (", "CREATE VIEW v AS SELECT (", "CREATE VIEW v AS ", "CREATE TABLE t (", "CREATE TABLE t (a INT DEFAULT (", "CREATE TABLE t (a INT CHECK (", "CREATE FUNCTION f(", "INSERT INTO t VALUES (", "INSERT INTO t (",
    "INSERT INTO t SELECT ", "INSERT INTO t SET a = (", "UPDATE t SET a = (", "UPDATE (", "DELETE FROM t WHERE (", "DELETE FROM t USING (", "SELECT a FROM t WHERE (", "SELECT a FROM t WHERE a IN (", "SELECT 1 UNION (", "SELECT 1 UNION SELECT (",
    "SELECT 1 UNION ", "(SELECT 1) UNION (", "RETURN (", "SET a = (", "SIGNAL SQLSTATE (", "SELECT a FROM t JOIN (", "SELECT a FROM t LEFT JOIN b ON (", "SELECT a FROM t GROUP BY (", "SELECT a FROM t ORDER BY (",
    "SELECT a FROM t HAVING (", "SELECT a FROM t LIMIT (", "SELECT SUM(a) OVER (", "SELECT SUM(a) OVER (PARTITION BY ", "SELECT SUM(a) OVER (ORDER BY (", "LEAD(a) OVER (PARTITION BY ", "DO $$ BEGIN ", "DO $$", "DO ", "/*", "'", "\"", "`",
    "ALTER TABLE t ADD (", "ALTER TABLE t ADD CONSTRAINT a CHECK (", "ALTER TABLE t ADD a INT DEFAULT (", "CREATE INDEX i ON t ((", "CREATE INDEX i ON t (a) WHERE (", "ON CONFLICT (a) DO UPDATE SET a = (", "EXPLAIN ", "COPY (", "COPY t (", "MATCH (",
    "AGAINST (", "a IS NOT (", "a LIKE (", "a COLLATE ", "BINARY ", "ROW(", "@a := (", "1::", "a -> (",
];
const MIDDLES: &[&str] = &["1", "a", "SELECT 1", "", "NULL", "?", "'s'", "SELECT a FROM t", ";", ")", "x y z", "*", "END"];
const CLOSERS: &[&str] = &[")", "", " END", " END)", "))", " THEN 1 END", ") a", " END IF;", "; END;", "; END", "]", "}", ", 1)", " AS CHAR)", ") AS x", " FROM t)", "; END CASE;", "$$", "*/", "'", " WHEN 1 THEN 2 END"];
const LINKS: &[&str] = &[
    " + 1", " AND a", " OR a = 1", " IS NULL", " IN (1)", " JOIN b", " LEFT JOIN b ON a = c", ", a", ", (1)", ", a INT", " UNION SELECT 1", " UNION ALL SELECT a FROM b", ".a", ", a = 1", " a", " 1", " 's'", ";", " (", " )", " ,", " WHEN 1 THEN 2",
    " ELSEIF 1 THEN SELECT 1;", ", ADD a INT", " DELIMITER ;", "; DELIMITER $$", " LIKE 'a'", " NOT", " -", " $$", " BETWEEN 1 AND 2", " COLLATE a", " DESC", " NULL", " DEFAULT 1", " COMMENT 'a'", " PRIMARY KEY", " UNSIGNED",
];

fn deep(cx: &mut Ctx, o: Opts) -> String {
    let mut s = String::new();
    let mix = cx.c.chance(1, 3);
    let a = OPENERS[cx.c.below(OPENERS.len())];
    let pool: Vec<&str> = (0..1 + cx.c.below(3)).map(|_| OPENERS[cx.c.below(OPENERS.len())]).collect();
    let n = match cx.c.below(6) {
        0 => cx.c.below(20),
        1 => 60 + cx.c.below(120),
        2 => 100 + cx.c.below(300),
        3 => cx.c.below(3000),
        4 => 1000 + cx.c.below(4000),
        _ => 5000 + cx.c.below(if cx.thorough { 60_000 } else { 15_000 }),
    };
    cx.fault(if n > 500 { "opened very often" } else { "opened often" });
    match cx.c.below(4) {
        0 => s.push_str("SELECT "),
        1 => {
            let m = message(&mut cx.c, o, &mut 0, Only::Any, 0);
            let k = cx.c.below(m.s.toks.len() + 1);
            s.push_str(&crate::damage::join(&m.s.toks[..k]));
            s.push(' ');
        }
        2 => s.push_str(cx.c.pick(&["SELECT a FROM t WHERE ", "INSERT INTO t VALUES (", "UPDATE t SET a = ", "CREATE TABLE t (a INT DEFAULT ", "RETURN ", "CREATE TRIGGER t AFTER INSERT ON a FOR EACH ROW BEGIN "])),
        _ => (),
    }
    // links would make a flat chain
    let is_flat = |a: &str| matches!(a, "1 + " | "NOT " | "-" | "- " | "~" | "!" | "SELECT 1 UNION " | "INTERVAL " | "BINARY " | "/*" | "1::" | "a COLLATE ");
    if mix {
        for i in 0..if pool.iter().any(|a| is_flat(a)) { n.min(900) } else { n } {
            s.push_str(pool[i % pool.len()]);
        }
    } else {
        for _ in 0..if is_flat(a) { n.min(400) } else { n } {
            s.push_str(a);
        }
    }
    s.push_str(cx.c.pick(MIDDLES));
    let closers: Vec<&str> = (0..1 + cx.c.below(2)).map(|_| CLOSERS[cx.c.below(CLOSERS.len())]).collect();
    let k = match cx.c.below(3) {
        0 => 0,
        1 => n,
        _ => cx.c.below(n + 2),
    };
    for i in 0..k {
        s.push_str(closers[i % closers.len()]);
    }
    if cx.c.chance(1, 2) {
        s.push(';');
    }
    if cx.c.chance(1, 8) {
        s.push_str(" SELECT 1;");
    }
    s
}

fn long(cx: &mut Ctx, o: Opts) -> String {
    let m = message(&mut cx.c, o, &mut 0, Only::Any, 0);
    let k = cx.c.below(m.s.toks.len() + 1);
    let mut s = crate::damage::join(&m.s.toks[..k]);
    let l: Vec<&str> = (0..1 + cx.c.below(2)).map(|_| LINKS[cx.c.below(LINKS.len())]).collect();
    for i in 0..cx.c.below(400) {
        s.push_str(l[i % l.len()]);
    }
    s.push(' ');
    s.push_str(&crate::damage::join(&m.s.toks[k..]));
    s.push(';');
    cx.fault("part repeated often");
    s
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose_any(&mut cx.c);
    let text = match cx.c.below(40) {
        0 => deep(cx, o),
        1 => long(cx, o),
        _ => wreck(cx, o),
    };
    let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
    cx.log(|| format!("{:?} {:?} {}", e, o, show(&text)));
    sample(cx, &text);
    let lim = Limits::for_len(text.len());
    let (end, m) = guarded(lim, || {
        let mut issues = Issues::new(&text);
        let s = exec::call(&text, &mut issues, &o, e);
        let r = exec::use_all(&s, &issues);
        let mut shown = 0;
        // rendering is proportional to the text per diagnostic, a sample of many will do
        if issues.get().len() <= 50 {
            let mut out = String::new();
            let _ = write!(out, "{}", issues);
            shown = out.len();
        }
        let again = s.clone();
        drop(s);
        let v = issues.into_vec();
        drop(again);
        drop(v);
        (r.0.len(), shown)
    });
    cx.meter(&m);
    must(end, &text, &lim)?;
    cx.reached(hash(text.as_bytes()));
    Ok(())
}
