//! Options hold as they were last set.

use super::*;
use crate::ensure;
use crate::choice::mix;
use crate::exec::{self, guarded, hash, must, Check, Entry, Limits};
use crate::gen::{Opts, MARIA, PG, SQLITE};
use sql_parse::{parse_statement, parse_statements, Issues, ParseOptions, SQLArguments, SQLDialect};

pub const PROP: Prop = Prop {
    id: "C32",
    run,
    quick: 80_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct histories of settings and parses",
    real: REAL,
    stub: STUB,
    assumptions: &["what belongs to which dialect and placeholder style is taken from the library's own messages, as in C23"],
};

fn dialect(d: u8) -> SQLDialect {
    match d {
        MARIA => SQLDialect::MariaDB,
        PG => SQLDialect::PostgreSQL,
        _ => SQLDialect::Sqlite,
    }
}

fn arguments(a: u8) -> SQLArguments {
    match a {
        0 => SQLArguments::None,
        1 => SQLArguments::QuestionMark,
        2 => SQLArguments::Percent,
        _ => SQLArguments::Dollar,
    }
}

/// The application changes one option
fn set(c: &mut Choices, p: ParseOptions, m: &mut Opts) -> ParseOptions {
    match c.below(5) {
        0 => {
            m.dialect = c.below(3) as u8;
            p.dialect(dialect(m.dialect))
        }
        1 => {
            m.args = c.below(4) as u8;
            p.arguments(arguments(m.args))
        }
        2 => {
            m.warn_id = c.chance(1, 2);
            p.warn_unquoted_identifiers(m.warn_id)
        }
        3 => {
            m.warn_kw = c.chance(1, 2);
            p.warn_none_capital_keywords(m.warn_kw)
        }
        _ => {
            m.list_hack = c.chance(1, 2);
            p.list_hack(m.list_hack)
        }
    }
}

fn says(p: &ParseOptions, m: &Opts) -> bool {
    let d = p.get_dialect();
    d.is_maria() == (m.dialect == MARIA) && d.is_postgresql() == (m.dialect == PG) && d.is_sqlite() == (m.dialect == SQLITE)
}

/// What each option makes of texts that tell them apart
fn told_apart(p: &ParseOptions, m: &Opts) -> Check {
    let errors = |t: &str| {
        let mut i = Issues::new(t);
        parse_statement(t, &mut i, p);
        i.get().iter().map(exec::diag).filter(|d| d.error).count()
    };
    let want = |what: &str, t: &str, ok: bool| -> Check {
        let n = errors(t);
        ensure!((n == 0) == ok, "option not obeyed", "{} errors for {} under {:?} ({})", n, t, m, what);
        Ok(())
    };
    want("dialect", "SELECT `a`", m.dialect != PG)?;
    want("dialect", "DROP TABLE a CASCADE", m.dialect == PG)?;
    want("dialect", "CREATE INDEX a ON b (c) WHERE d", m.dialect != MARIA)?;
    want("dialect", "SELECT 1 FROM a USE INDEX (b)", m.dialect == MARIA)?;
    want("placeholders", "SELECT ?", m.args == 1)?;
    want("placeholders", "SELECT %s", m.args == 2)?;
    want("placeholders", "SELECT $1", m.args == 3)?;
    let t = "SELECT 1 IN (_LIST_)";
    let s = parse_statement(t, &mut Issues::new(t), p);
    ensure!(format!("{:?}", s).contains("ListHack") == m.list_hack, "option not obeyed", "{:?} for {} under {:?}", s, t, m);
    let t = "select a";
    let mut i = Issues::new(t);
    parse_statement(t, &mut i, p);
    let w: Vec<_> = i.get().iter().map(|x| x.span.clone()).collect();
    let has = |s: usize| w.iter().any(|x| x.start == s);
    ensure!(has(7) == m.warn_id && has(0) == m.warn_kw && w.len() == m.warn_id as usize + m.warn_kw as usize, "option not obeyed", "warnings at {:?} for {} under {:?}", w, t, m);
    Ok(())
}

fn run(cx: &mut Ctx) -> Check {
    let start = Opts { dialect: MARIA, args: 0, warn_id: false, warn_kw: false, list_hack: false, order: 0 };
    // what the parts of the application hold
    let mut held: Vec<(ParseOptions, Opts)> = vec![(if cx.c.chance(1, 2) { ParseOptions::new() } else { ParseOptions::default() }, start)];
    let mut h = 0;
    for _ in 0..2 + cx.c.below(12) {
        let i = cx.c.below(held.len());
        match cx.c.below(8) {
            0 => {
                // a part of its own
                let x = (held[i].0.clone(), held[i].1);
                held.push(x);
                h = mix(h, 1);
                cx.log(|| format!("{} is copied", i));
            }
            1 => {
                let p = if cx.c.chance(1, 2) { ParseOptions::new() } else { ParseOptions::default() };
                held.push((p, start));
                h = mix(h, 2);
                cx.log(|| "new options".into());
            }
            2..=5 => {
                let (p, mut m) = held[i].clone();
                let p = set(&mut cx.c, p, &mut m);
                cx.log(|| format!("{} is set to {:?}", i, m));
                held[i] = (p, m);
                cx.fault("configuration changed");
                h = mix(h, hash(format!("{:?}", m).as_bytes()));
            }
            _ => {
                let m = held[i].1;
                // what suits these options, or others
                let o = if cx.c.chance(2, 3) { m } else { held[cx.c.below(held.len())].1 };
                let valid = o == m && cx.c.chance(1, 2);
                let text = if valid {
                    let g = Opts { warn_id: false, ..o };
                    let x = messages(&mut cx.c, g, 1, 2, Only::Any);
                    assemble(cx, g, &x, ";", true).text
                } else if cx.c.chance(1, 2) {
                    wreck(cx, o)
                } else {
                    mixed(cx, o, 1, 2).text
                };
                cx.log(|| format!("{} parses {:?} {}", i, m, show(&text)));
                sample(cx, &text);
                h = mix(h, hash(text.as_bytes()));
                let want = exec::run(&text, &m, Entry::Script)?;
                let lim = Limits::for_len(text.len());
                let p = &held[i].0;
                let (end, meter) = guarded(lim, || {
                    let mut issues = Issues::new(&text);
                    let s = parse_statements(&text, &mut issues, p);
                    exec::use_all(&s, &issues)
                });
                cx.meter(&meter);
                let (s, d) = must(end, &text, &lim)?;
                ensure!(s == want.stmts && d == want.diags, "other result under the same options", "{:?} on {}", m, show(&text));
                if valid && !(m.dialect == PG && m.warn_id) {
                    ensure!(want.errors() == 0, "error for a supported script", "{} on {}", want.diag_dump(), show(&text));
                }
                c23::foreign(cx, &text, &want, m)?;
                cx.st.add("parses compared", 1);
            }
        }
        for (k, (p, m)) in held.iter().enumerate() {
            ensure!(says(p, m), "dialect of the options", "{} has {:?} for {:?}", k, p.get_dialect(), m);
        }
    }
    let lim = Limits::for_len(1000);
    for (p, m) in &held {
        let (end, meter) = guarded(lim, || told_apart(p, m));
        cx.meter(&meter);
        must(end, "", &lim)??;
    }
    cx.reached(h);
    Ok(())
}
