//! Dialect and placeholder style are enforced.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts, Tok, MARIA, PG, SQLITE};
use crate::truth::{self, V};
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    quick: 400_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct texts with the options they are received under",
    real: REAL,
    stub: STUB,
    assumptions: &[
        "which dialect a form belongs to is taken from the library's own messages, as a table in the check",
        "dialects differ for one text only in what that table holds, in REAL, and in what stands between double quotes",
    ],
};

fn run(cx: &mut Ctx) -> Check {
    match cx.c.below(4) {
        0 => {
            let o = Opts::choose_any(&mut cx.c);
            // written by a client with other options
            let p = Opts::choose(&mut cx.c);
            let text = match cx.c.below(3) {
                0 => wreck(cx, p),
                1 => mixed(cx, p, 1, 3).text,
                _ => {
                    let m = messages(&mut cx.c, p, 1, 3, Only::Any);
                    assemble(cx, p, &m, ";", true).text
                }
            };
            if (p.dialect, p.args) != (o.dialect, o.args) {
                cx.fault("script misrouted");
            }
            let e = if cx.c.chance(1, 4) { Entry::Single } else { Entry::Script };
            cx.log(|| format!("{:?} {:?} {}", e, o, show(&text)));
            sample(cx, &text);
            let r = exec::run(&text, &o, e)?;
            cx.meter(&r.meter);
            foreign(cx, &text, &r, o)?;
            cx.reached(hash(text.as_bytes()) ^ (o.dialect as u64 * 4 + o.args as u64));
            Ok(())
        }
        1 | 2 => misrouted(cx),
        _ => twice(cx),
    }
}

fn span(v: &V) -> Option<Range<usize>> {
    fn go(v: &V, at: &mut Option<Range<usize>>) {
        match v {
            V::Range(r) if r.end > 0 => {
                *at = Some(match at.take() {
                    Some(a) => a.start.min(r.start)..a.end.max(r.end),
                    None => r.clone(),
                })
            }
            V::Node(_, f) => f.iter().for_each(|x| go(&x.1, at)),
            V::List(l) | V::Tuple(l) => l.iter().for_each(|x| go(x, at)),
            _ => {}
        }
    }
    let mut at = None;
    go(v, &mut at);
    at
}

fn field<'a>(f: &'a [(String, V)], n: &str) -> Option<&'a V> {
    f.iter().find(|x| x.0 == n).map(|x| &x.1)
}

/// The value of `Some`
fn some<'a>(f: &'a [(String, V)], n: &str) -> Option<&'a V> {
    match field(f, n)? {
        V::Node(s, _) if s == "None" => None,
        v => Some(v),
    }
}

fn list<'a>(f: &'a [(String, V)], n: &str) -> &'a [V] {
    match field(f, n) {
        Some(V::List(l)) => l,
        _ => &[],
    }
}

fn upper(text: &str, r: &Range<usize>) -> String {
    text.get(r.clone()).unwrap_or("").to_ascii_uppercase()
}

/// Is one of the strings of a literal in double quotes?
fn double_quotes(t: &str) -> bool {
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match (c, it.peek().copied()) {
            ('\'', _) => {
                while let Some(c) = it.next() {
                    match (c, it.peek()) {
                        ('\\', _) | ('\'', Some('\'')) => {
                            it.next();
                        }
                        ('\'', _) => break,
                        _ => {}
                    }
                }
            }
            ('"', _) => return true,
            ('-', Some('-')) | ('/', Some('/')) => while !matches!(it.next(), Some('\n' | '\r') | None) {},
            ('/', Some('*')) => {
                it.next();
                while let Some(c) = it.next() {
                    if c == '*' && it.peek() == Some(&'/') {
                        it.next();
                        break;
                    }
                }
            }
            _ => {}
        }
    }
    false
}

/// Parts of a statement that a receiver with these options has to complain
/// about
fn parts(text: &str, v: &V, o: Opts, out: &mut Vec<(&'static str, Range<usize>)>) {
    let d = o.dialect;
    match v {
        V::Node(n, f) => {
            let mut add = |w: &'static str, v: Option<&V>| {
                if let Some(r) = v.and_then(span) {
                    out.push((w, r));
                }
            };
            match n.as_str() {
                "Table" if d != MARIA && !list(f, "index_hints").is_empty() => add("index hint", field(f, "index_hints")),
                "NoKeyUpdate" | "KeyShare" if d != PG => add("lock strength", Some(v)),
                "CreateTypeEnum" if d != PG => add("CREATE TYPE", Some(v)),
                "WithQuery" if d != PG => add("WITH", Some(v)),
                "Update" if d != PG => add("UPDATE RETURNING", some(f, "returning")),
                "InsertReplace" => {
                    if d != PG {
                        add("ON CONFLICT", some(f, "on_conflict"));
                    }
                    if d != MARIA {
                        add("ON DUPLICATE KEY", some(f, "on_duplicate_key_update"));
                    }
                }
                "Named" if d != PG => add("named type", Some(v)),
                "CreateIndex" if d == MARIA => add("partial index", some(f, "where_")),
                "AddColumn" if d == MARIA => add("ADD COLUMN IF NOT EXISTS", some(f, "if_not_exists_span")),
                "DropIndex" => {
                    if d == PG {
                        add("DROP INDEX ON", some(f, "on"));
                    }
                    if d == MARIA && field(f, "on").is_some() && some(f, "on").is_none() {
                        add("DROP INDEX without ON", Some(v));
                    }
                }
                "DropTable" if d != PG => add("DROP TABLE CASCADE", some(f, "cascade")),
                "CreateFunction" if d != MARIA => add("function body", some(f, "return_")),
                "Identifier" => {
                    if let Some(r) = span(v) {
                        let q = text.get(r.clone()).unwrap_or("").chars().next();
                        if d == PG && q == Some('`') || d != PG && q == Some('"') {
                            out.push(("quotes of a name", r));
                        }
                    }
                }
                "SString" if d == PG => {
                    if let Some(r) = span(v) {
                        if double_quotes(&text[r.clone()]) {
                            out.push(("quotes of a string", r));
                        }
                    }
                }
                "Interval" if d == PG => {
                    if let Some(r) = field(f, "time_interval").and_then(span) {
                        if double_quotes(&text[r.clone()]) {
                            out.push(("quotes of an interval", r));
                        }
                    }
                }
                "ListHack" if !o.list_hack => add("list", Some(v)),
                "Arg" => {
                    if let Some(r) = span(v) {
                        let t = text.get(r.clone()).unwrap_or("");
                        let s = match t.as_bytes().first() {
                            Some(b'?') => 1,
                            Some(b'%') => 2,
                            Some(b'$') => 3,
                            _ => 4,
                        };
                        if s != o.args {
                            out.push(("placeholder", r));
                        }
                    }
                }
                _ => {}
            }
            for x in f {
                parts(text, &x.1, o, out);
            }
        }
        V::List(l) | V::Tuple(l) => l.iter().for_each(|x| parts(text, x, o, out)),
        _ => {}
    }
}

/// What has one spelling in each dialect
fn spelling(text: &str, v: &V, o: Opts) -> Result<(), String> {
    match v {
        V::Node(n, f) => {
            if n == "DataType" {
                let at = field(f, "identifier").and_then(span);
                if let (Some(r), Some(V::Node(t, _))) = (at, field(f, "type_")) {
                    let w = upper(text, &r);
                    let want = match w.split_whitespace().next() {
                        Some("REAL") if o.dialect == SQLITE => "Double",
                        Some("REAL") => "Float",
                        _ => t,
                    };
                    if t != want {
                        return Err(format!("{} for {:?}", t, w));
                    }
                    if t == "Double" && w.starts_with("DOUBLE") && (w != "DOUBLE") != (o.dialect == PG) {
                        return Err(format!("{:?} taken as a type", w));
                    }
                }
            }
            if n == "GeneratedAlways" {
                if let Some(r) = span(v) {
                    if upper(text, &r).ends_with("IDENTITY") != (o.dialect == PG) {
                        return Err(format!("{:?} taken", &text[r]));
                    }
                }
            }
            f.iter().try_for_each(|x| spelling(text, &x.1, o))
        }
        V::List(l) | V::Tuple(l) => l.iter().try_for_each(|x| spelling(text, x, o)),
        _ => Ok(()),
    }
}

/// Nothing foreign is returned without an error about it
pub fn foreign(cx: &mut Ctx, text: &str, r: &exec::Res, o: Opts) -> Check {
    for d in &r.stmts {
        let v = truth::parse(d).expect("printed form");
        let mut p = Vec::new();
        parts(text, &v, o, &mut p);
        cx.st.add("foreign parts returned", p.len() as u64);
        for (w, at) in p {
            let told = r.diags.iter().any(|d| d.error && d.span.start < at.end && at.start < d.span.end);
            ensure!(told, "foreign part accepted", "{} at {:?} for {:?} on {}", w, at, o, show(text));
        }
        if let Err(w) = spelling(text, &v, o) {
            return fail("foreign spelling", format!("{} for {:?} on {}", w, o, show(text)));
        }
    }
    Ok(())
}

/// The index of a word in a message that a receiver with these options must
/// complain about
fn wrong(t: &[Tok], kind: &str, o: Opts) -> Option<(&'static str, usize)> {
    let d = o.dialect;
    let kw = |i: usize, w: &str| t.get(i).is_some_and(|x| x.cls == Cls::Kw && x.text.eq_ignore_ascii_case(w));
    let seq = |i: usize, w: &[&str]| w.iter().enumerate().all(|(k, w)| kw(i + k, w));
    for i in 0..t.len() {
        if t[i].cls == Cls::Arg && !t[i].text.starts_with('_') {
            let s = match t[i].text.as_bytes()[0] {
                b'?' => 1,
                b'%' => 2,
                _ => 3,
            };
            if s != o.args {
                return Some(("placeholder", i));
            }
        }
        if t[i].cls == Cls::Name && d == PG && t[i].text.starts_with('`') {
            return Some(("quotes of a name", i));
        }
        let x = if d == PG {
            match kind {
                "InsertReplace" if seq(i, &["ON", "DUPLICATE", "KEY"]) => Some("ON DUPLICATE KEY"),
                "Select" if ["USE", "FORCE", "IGNORE"].iter().any(|w| kw(i, w)) && (kw(i + 1, "INDEX") || kw(i + 1, "KEY")) => Some("index hint"),
                "DropIndex" if kw(i, "ON") => Some("DROP INDEX ON"),
                "CreateTable" if kw(i, "DOUBLE") && !kw(i + 1, "PRECISION") => Some("DOUBLE"),
                _ => None,
            }
        } else {
            match kind {
                "WithQuery" if kw(i, "WITH") => Some("WITH"),
                "CreateTypeEnum" if kw(i, "TYPE") => Some("CREATE TYPE"),
                "Update" if kw(i, "RETURNING") => Some("UPDATE RETURNING"),
                "InsertReplace" if seq(i, &["ON", "CONFLICT"]) => Some("ON CONFLICT"),
                "InsertReplace" if d != MARIA && seq(i, &["ON", "DUPLICATE", "KEY"]) => Some("ON DUPLICATE KEY"),
                "Select" if seq(i, &["NO", "KEY", "UPDATE"]) || seq(i, &["KEY", "SHARE"]) => Some("lock strength"),
                "Select" if d != MARIA && ["USE", "FORCE", "IGNORE"].iter().any(|w| kw(i, w)) && (kw(i + 1, "INDEX") || kw(i + 1, "KEY")) => Some("index hint"),
                "CreateIndex" if t[i].text.to_ascii_uppercase().ends_with("_OPS") && t[i].cls == Cls::Kw => Some("operator class"),
                "CreateIndex" if d == MARIA && kw(i, "WHERE") => Some("partial index"),
                "DropTable" if kw(i, "CASCADE") => Some("DROP TABLE CASCADE"),
                "CreateTable" if seq(i, &["DOUBLE", "PRECISION"]) => Some("DOUBLE PRECISION"),
                "AlterTable" if d == MARIA && seq(i, &["ADD", "COLUMN", "IF"]) => Some("ADD COLUMN IF NOT EXISTS"),
                _ => None,
            }
        };
        if let Some(x) = x {
            return Some((x, i));
        }
    }
    if d == MARIA && kind == "DropIndex" && !(0..t.len()).any(|i| kw(i, "ON")) {
        return Some(("DROP INDEX without ON", 0));
    }
    None
}

/// Messages of other clients arrive among one's own
fn misrouted(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let k = cx.c.range(2, 5);
    let mut n = 0;
    let mut m = Vec::new();
    let mut own = Vec::new();
    for i in 0..k {
        if cx.c.chance(1, 2) {
            m.push(message(&mut cx.c, o, &mut n, Only::Any, i));
            own.push(true);
            continue;
        }
        let mut p = o;
        match cx.c.below(4) {
            0 => p.dialect = cx.c.below(3) as u8,
            1 => p.list_hack = !p.list_hack,
            2 => p.args = cx.c.below(4) as u8,
            _ => {
                p.dialect = cx.c.below(3) as u8;
                p.args = cx.c.below(4) as u8;
            }
        }
        let x = message(&mut cx.c, p, &mut n, Only::Flat, i);
        if !flat(&x) {
            continue;
        }
        m.push(x);
        own.push((p.dialect, p.args, p.list_hack) == (o.dialect, o.args, o.list_hack));
    }
    let s = assemble(cx, o, &m, ";", true);
    cx.log(|| format!("{:?} {:?} {}", own, o, show(&s.text)));
    sample(cx, &s.text);
    let r = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    foreign(cx, &s.text, &r, o)?;
    let g = groups(&s, &r)?;
    let mut hurt = 0;
    for (i, it) in s.items.iter().enumerate() {
        let errs: Vec<_> = g[i].diags.iter().filter(|d| d.error).collect();
        if own[i] {
            ensure!(errs.is_empty(), "error for one's own", "{} on {}", errs[0].dump, show(&s.text));
            ensure!(g[i].stmts.len() == 1 + it.data.is_some() as usize, "not one statement", "{:?} on {}", g[i].stmts, show(&s.text));
            continue;
        }
        cx.fault("message misrouted");
        if let Some((w, k)) = wrong(&m[i].s.toks, it.kind, o) {
            hurt += 1;
            ensure!(!errs.is_empty(), "foreign form accepted", "{} {:?} for {:?} on {}", w, it.toks[k].1, o, show(&s.text));
            for d in &errs {
                ensure!(d.span.end <= it.term.end, "complaint beyond the message", "{} on {}", d.dump, show(&s.text));
            }
        }
    }
    cx.st.add("messages that had to be refused", hurt);
    cx.reached(hash(s.text.as_bytes()) ^ (o.dialect as u64 * 4 + o.args as u64));
    Ok(())
}

/// One text arrives at two receivers
fn twice(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let text = if cx.c.chance(1, 2) {
        wreck(cx, o)
    } else {
        let m = messages(&mut cx.c, o, 1, 3, Only::Any);
        let m = deliver(cx, m);
        assemble(cx, o, &m, ";", true).text
    };
    let mut p = o;
    let args = cx.c.chance(1, 2);
    if args {
        p.args = cx.c.below(4) as u8;
    } else {
        p.dialect = cx.c.below(3) as u8;
    }
    let e = if cx.c.chance(1, 4) { Entry::Single } else { Entry::Script };
    cx.log(|| format!("{:?} {:?} {:?} {}", e, o, p, show(&text)));
    sample(cx, &text);
    let a = exec::run(&text, &o, e)?;
    let b = exec::run(&text, &p, e)?;
    cx.meter(&a.meter);
    cx.meter(&b.meter);
    cx.fault("delivered to two receivers");
    cx.reached(hash(text.as_bytes()) ^ (o.dialect as u64 * 4 + o.args as u64));
    if args {
        // without a placeholder the style makes no difference
        if text.contains(['?', '%', '$']) {
            return Ok(());
        }
        ensure!(a.stmts == b.stmts && a.diags == b.diags, "style of placeholders matters", "{} on {}", diff(&a.dump(), &b.dump()), show(&text));
    } else {
        if a.errors() > 0 || b.errors() > 0 || text.contains('"') {
            return Ok(());
        }
        // a function has a body for one and none for the other
        let u = text.to_ascii_uppercase();
        if u.contains("REAL") || u.contains("FUNCTION") {
            return Ok(());
        }
        ensure!(a.stmts == b.stmts, "taken by both with different meaning", "{} on {}", diff(&a.dump(), &b.dump()), show(&text));
        cx.st.add("taken by both dialects", 1);
    }
    cx.st.add("texts compared between receivers", 1);
    Ok(())
}
