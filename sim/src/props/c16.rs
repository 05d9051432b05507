//! Returned names act as their text.

use super::*;
use crate::choice::mix;
use crate::ensure;
use crate::exec::{self, guarded, hash, must, Check, Entry, Limits};
use crate::gen::{Opts, PG};
use sql_parse::{parse_statements, Identifier, Spanned, Statement};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 150_000,
    thorough_s: 200,
    level: "exploration",
    rule: "distinct histories of an application's index of names",
    real: REAL,
    stub: "the clients that send scripts, the delivery path and the application that indexes names are simulated",
    assumptions: &["the index is an ordered map, the only kind the library's names can be keys of"],
};

const NAMES: &[&str] = &["a", "b", "A", "aa", "ab", "a1", "a10", "a2", "_", "t-x", "0a", "z", "order", "B", "select", "ba", "-"];

/// In double quotes
const MORE: &[&str] = &["é", "É", "a b", "\u{1F600}", "a;b", "a`", "", "z\u{301}"];

fn bare(n: &str) -> bool {
    n.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && n != "order" && n != "select"
}

/// One client's script: names in the places of tables
fn script(cx: &mut Ctx, o: Opts) -> (String, Vec<String>) {
    let mut text = String::new();
    let mut names = Vec::new();
    for _ in 0..1 + cx.c.small(2) {
        gen::space(&mut cx.c, &mut text);
        text.push_str("DROP TABLE");
        for i in 0..1 + cx.c.small(4) {
            if i > 0 {
                text.push(if i > 1 && cx.c.chance(1, 4) { '.' } else { ',' });
            }
            text.push(' ');
            let n = if o.dialect == PG && cx.c.chance(1, 3) { *cx.c.pick(MORE) } else { *cx.c.pick(NAMES) };
            let n = long(&mut cx.c, n);
            if bare(&n) && cx.c.chance(1, 2) {
                text.push_str(&n);
            } else {
                let q = if o.dialect == PG { '"' } else { '`' };
                text.push(q);
                text.push_str(&n);
                text.push(q);
            }
            names.push(n);
        }
        text.push(';');
    }
    (text, names)
}

/// Some names only differ far from their start
fn long(c: &mut Choices, n: &str) -> String {
    if !c.chance(1, 4) {
        return n.to_string();
    }
    let k = *c.pick(&[15usize, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 300]);
    "n".repeat(k) + if n == "" || n == "-" { "a" } else { n }
}

fn collect<'a>(s: &[Statement<'a>]) -> Vec<Identifier<'a>> {
    let mut v = Vec::new();
    for s in s {
        if let Statement::DropTable(d) = s {
            for t in &d.tables {
                v.extend(t.prefix.iter().map(|p| p.0.clone()));
                v.push(t.identifier.clone());
            }
        }
    }
    v
}

fn run(cx: &mut Ctx) -> Check {
    let k = 1 + cx.c.below(3);
    let mut sent = Vec::new();
    for _ in 0..k {
        let o = Opts::choose(&mut cx.c);
        let (t, n) = script(cx, o);
        sent.push((o, t, n));
    }
    if cx.c.chance(1, 3) {
        let x = sent[cx.c.below(sent.len())].clone();
        sent.push(x);
        cx.fault("script duplicated");
    }
    cx.log(|| format!("{:?}", sent));
    sample(cx, &sent[0].1);
    let mut all: Vec<(Identifier, &str)> = Vec::new();
    for (o, t, n) in &sent {
        let lim = Limits::for_len(t.len());
        let (end, m) = guarded(lim, || {
            let mut issues = Issues::new(t);
            let s = parse_statements(t, &mut issues, &o.options());
            (collect(&s), issues.get().iter().filter(|i| exec::diag(i).error).count())
        });
        let (ids, errs) = must(end, t, &lim)?;
        cx.meter(&m);
        ensure!(errs == 0, "error for names", "on {}", show(t));
        ensure!(ids.len() == n.len(), "names lost", "{:?} for {:?} on {}", ids, n, show(t));
        for (i, n) in ids.into_iter().zip(n) {
            all.push((i, n.as_str()));
        }
    }
    let _ = Entry::Script;
    // each acts as its text
    for (i, n) in &all {
        let b: &str = i.borrow();
        ensure!(i.as_str() == *n && b == *n && &**i == *n && i.to_string() == *n && i.value == *n, "text of a name", "{:?} for {:?}", i, n);
        ensure!(format!("{:>8}|{:<6}|{:.1}", i, i, i) == format!("{:>8}|{:<6}|{:.1}", n, n, n), "print of a name", "{:?}", i);
        let j = Identifier::new(n, 7..9);
        ensure!(*i == j && i.cmp(&j) == Ordering::Equal && j.span() == (7..9), "same name elsewhere differs", "{:?} {:?}", i, j);
        let c = i.clone();
        ensure!(c == *i && c.span == i.span && c.span() == i.span, "copy of a name", "{:?} {:?}", i, c);
    }
    for (i, n) in &all {
        for (j, m) in &all {
            ensure!((i == j) == (n == m) && (i != j) == (n != m), "equality of names", "{:?} {:?}", i, j);
            ensure!(i.cmp(j) == n.cmp(m) && i.partial_cmp(j) == Some(n.cmp(m)) && (i < j) == (n < m), "order of names", "{:?} {:?}", i, j);
        }
    }
    // an application's index of them
    let mut index: BTreeMap<Identifier, usize> = BTreeMap::new();
    let mut model: BTreeMap<String, usize> = BTreeMap::new();
    let mut h = hash(sent[0].1.as_bytes());
    for step in 0..cx.c.below(24) {
        let (i, n) = &all[cx.c.below(all.len())];
        let op = cx.c.below(6);
        h = mix(h, mix(op as u64, hash(n.as_bytes())));
        cx.log(|| format!("step {}: {} {:?}", step, op, n));
        match op {
            0..=2 => ensure!(index.insert(i.clone(), step) == model.insert(n.to_string(), step), "insertion into the index", "{:?}", n),
            3 => ensure!(index.remove(*n) == model.remove(*n), "removal from the index", "{:?}", n),
            4 => {
                let q = *cx.c.pick(NAMES);
                let q = long(&mut cx.c, q);
                let q = q.as_str();
                ensure!(index.get(q) == model.get(q) && index.contains_key(q) == model.contains_key(q), "lookup in the index", "{:?}", q);
            }
            _ => {
                let a: Vec<_> = index.range::<str, _>((std::ops::Bound::Included(*n), std::ops::Bound::Unbounded)).map(|x| (x.0.to_string(), *x.1)).collect();
                let b: Vec<_> = model.range(n.to_string()..).map(|x| (x.0.clone(), *x.1)).collect();
                ensure!(a == b, "range of the index", "{:?}", n);
            }
        }
        ensure!(index.len() == model.len() && index.iter().map(|x| (x.0.as_str(), x.1)).eq(model.iter().map(|x| (x.0.as_str(), x.1))), "index", "{:?} for {:?}", index, model);
    }
    let set: BTreeSet<&Identifier> = all.iter().map(|x| &x.0).collect();
    let want: BTreeSet<&str> = all.iter().map(|x| x.1).collect();
    ensure!(set.iter().map(|x| x.as_str()).eq(want.iter().copied()), "set of names", "{:?}", set);
    cx.st.add("names compared", all.len() as u64);
    cx.reached(h);
    Ok(())
}
