//! A malformed statement is never accepted silently.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts, Tok};

pub const PROP: Prop = Prop {
    id: "C30",
    run,
    quick: 1_000_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct malformed texts",
    real: REAL,
    stub: STUB,
    assumptions: &["what is malformed is decided on the words that were sent: brackets that do not pair up, empty places in lists, operators and clauses without what they apply to, values next to each other"],
};

/// Words that something has to follow
const OPEN: &[&str] = &[
    "WHERE", "FROM", "BY", "HAVING", "INTO", "JOIN", "LIKE", "AND", "OR", "XOR", "DIV", "WHEN", "THEN", "ELSE", "AS", "SET", "BETWEEN", "REFERENCES", "TABLE", "SELECT", "CREATE", "ALTER", "DROP", "IN", "INTERVAL", "UNION", "USING",
    "LIMIT", "ORDER", "GROUP", "ADD",
];

/// Words after which no other clause or operator starts
const NEEDY: &[&str] = &[
    "WHERE", "FROM", "BY", "HAVING", "INTO", "JOIN", "LIKE", "AND", "OR", "XOR", "DIV", "WHEN", "AS", "SET", "BETWEEN", "REFERENCES", "SELECT", "IN", "USING", "LIMIT",
];
const NEXT: &[&str] = &["WHERE", "FROM", "BY", "HAVING", "INTO", "JOIN", "LIKE", "AND", "OR", "XOR", "DIV", "WHEN", "THEN", "ELSE", "AS", "BETWEEN", "REFERENCES", "IN", "UNION", "USING", "LIMIT", "ORDER", "GROUP"];

/// Operators with an operand on each side
const BINARY: &[&str] = &["=", "<", ">", "<=", ">=", "<>", "!=", "<=>", "&&", "||", "|", "&", "^", "<<", ">>", "/"];

/// Why no receiver may take these words without a complaint
pub fn malformed(t: &[Tok], o: Opts, blocks: bool) -> Option<(&'static str, usize)> {
    let mut depth = 0i64;
    let op = |i: usize, w: &str| t.get(i).is_some_and(|x| matches!(x.cls, Cls::Op | Cls::Word) && x.text == w);
    let kw = |i: usize, l: &[&str]| t.get(i).is_some_and(|x| matches!(x.cls, Cls::Kw | Cls::Word) && l.iter().any(|w| x.text.eq_ignore_ascii_case(w)));
    let end = |i: usize| i >= t.len() || op(i, ")") || op(i, ",") || op(i, ";");
    let start = |i: usize| i == 0 || op(i - 1, "(") || op(i - 1, ",") || op(i - 1, ";");
    let binary = |i: usize| BINARY.iter().any(|w| op(i, w));
    let number = |i: usize| t.get(i).is_some_and(|x| matches!(x.cls, Cls::Int | Cls::Float) && x.text.bytes().all(|c| c.is_ascii_digit() || c == b'.'));
    let string = |i: usize| t.get(i).is_some_and(|x| x.cls == Cls::Str);
    // a table may be a bare query, with an alias after that of its own last
    let bare = (1..t.len()).any(|i| kw(i, &["SELECT"]) && (op(i - 1, ",") || kw(i - 1, &["FROM", "JOIN", "STRAIGHT_JOIN", "UPDATE", "USING"])));
    for i in 0..t.len() {
        if op(i, "(") {
            depth += 1;
        }
        if op(i, ")") {
            depth -= 1;
            if depth < 0 {
                return Some(("bracket closed that is not open", i));
            }
        }
        if op(i, ";") && depth > 0 {
            return Some(("bracket left open", i));
        }
        if op(i, ",") && (start(i) || end(i + 1)) {
            return Some(("empty place in a list", i));
        }
        if op(i, ",") && binary(i + 1) {
            return Some(("operator without operand", i + 1));
        }
        if binary(i) && (start(i) || end(i + 1)) {
            return Some(("operator without operand", i));
        }
        if binary(i) && binary(i + 1) {
            return Some(("operators without operand between", i));
        }
        // any word may name a type of PostgreSQL
        let type_name = o.dialect == crate::gen::PG && i > 0 && (t[i - 1].cls == Cls::Name || kw(i - 1, &["AS", "RETURNS", "TYPE"]));
        if kw(i, OPEN) && !type_name && (i == 0 || !op(i - 1, ".")) {
            // a list of statements may start with empty ones
            let list = kw(i, &["THEN", "ELSE"]) && op(i + 1, ";");
            if end(i + 1) && !list {
                return Some(("clause without content", i));
            }
            let typed = o.dialect == crate::gen::PG && kw(i, &["AS"]);
            if !list && !typed && t[i].text.eq_ignore_ascii_case(&t[i + 1].text) && kw(i + 1, OPEN) {
                return Some(("clause opened twice", i));
            }
            if !typed && kw(i, NEEDY) && kw(i + 1, NEXT) {
                return Some(("clause without content", i));
            }
            if binary(i + 1) && !kw(i, &["SET", "SELECT"]) {
                return Some(("operator without operand", i + 1));
            }
        }
        let name = |i: usize| t.get(i).is_some_and(|x| x.cls == Cls::Name);
        if !bare && name(i) && name(i + 1) && name(i + 2) {
            return Some(("names next to each other", i));
        }
        if op(i, ".") && (op(i + 1, ".") || end(i + 1) || binary(i + 1) || op(i + 1, "(") || string(i + 1)) {
            return Some(("dot without a name", i));
        }
        if number(i) && (number(i + 1) || string(i + 1)) || string(i) && number(i + 1) {
            return Some(("values next to each other", i));
        }
    }
    if !blocks {
        let typed = |i: usize| o.dialect == crate::gen::PG && i > 0 && (t[i - 1].cls == Cls::Name || kw(i - 1, &["AS", "RETURNS", "TYPE"]));
        // END at the start ends a transaction
        let all = |w: &'static str| ((w == "END") as usize..t.len()).filter(|i| kw(*i, &[w])).collect::<Vec<_>>();
        let (c, e, w, h) = (all("CASE"), all("END"), all("WHEN"), all("THEN"));
        if !c.iter().chain(&e).chain(&w).chain(&h).any(|i| typed(*i)) {
            if c.len() != e.len() {
                return Some(("CASE without END", c.first().or(e.first()).copied().unwrap_or(0)));
            }
            if w.len() != h.len() {
                return Some(("WHEN without THEN", w.first().or(h.first()).copied().unwrap_or(0)));
            }
        }
    }
    (depth > 0).then(|| ("bracket left open", t.len()))
}

fn op(text: &str) -> Tok {
    Tok { cls: Cls::Op, ..damage::tok(text) }
}

/// Damage to the structure
fn hurt(cx: &mut Ctx, t: &mut Vec<Tok>) {
    let at = |cx: &mut Ctx, t: &[Tok], f: &dyn Fn(&Tok) -> bool| {
        let l: Vec<usize> = (0..t.len()).filter(|i| f(&t[*i])).collect();
        if l.is_empty() {
            None
        } else {
            Some(l[cx.c.below(l.len())])
        }
    };
    let is_op = |w: &'static [&'static str]| move |x: &Tok| x.cls == Cls::Op && w.contains(&x.text.as_str());
    match cx.c.below(12) {
        0 | 1 => {
            if let Some(i) = at(cx, t, &is_op(&["(", ")"])) {
                t.remove(i);
                cx.fault("bracket lost");
            }
        }
        2 => {
            let i = cx.c.below(t.len() + 1);
            let w = *cx.c.pick(&["(", ")"]);
            t.insert(i, op(w));
            cx.fault("bracket inserted");
        }
        3 => {
            if let Some(i) = at(cx, t, &is_op(&[",", "=", "(", ")", "."])) {
                let x = t[i].clone();
                t.insert(i, x);
                cx.fault("word duplicated");
            }
        }
        4 | 5 => {
            // what stands next to a comma, bracket or operator
            if let Some(i) = at(cx, t, &|x| x.cls == Cls::Op) {
                let b = cx.c.chance(1, 2);
                let j = if b { i + 1 } else { i.wrapping_sub(1) };
                if j < t.len() {
                    t.remove(j);
                    cx.fault("word lost");
                }
            }
        }
        6 | 11 => {
            // what a clause is about
            if let Some(i) = at(cx, t, &|x| x.cls == Cls::Kw && OPEN.contains(&x.text.to_ascii_uppercase().as_str())) {
                let e = if cx.c.chance(1, 3) {
                    (i + 2 + cx.c.small(3)).min(t.len())
                } else {
                    // up to the next clause
                    let mut d = 0;
                    let mut j = i + 1;
                    while j < t.len() {
                        let w = t[j].text.to_ascii_uppercase();
                        d += (w == "(") as i64 - (w == ")") as i64;
                        if d < 0 || d == 0 && t[j].cls == Cls::Kw && (OPEN.contains(&w.as_str()) || w == "OFFSET" || w == "ON") {
                            break;
                        }
                        j += 1;
                    }
                    j
                };
                t.drain(i + 1..e);
                cx.fault("words lost");
            }
        }
        7 => {
            // a part of a CASE, or a second one
            if let Some(i) = at(cx, t, &|x| x.cls == Cls::Kw && matches!(x.text.to_ascii_uppercase().as_str(), "CASE" | "WHEN" | "THEN" | "ELSE" | "END")) {
                if cx.c.chance(2, 3) {
                    t.remove(i);
                    cx.fault("word lost");
                } else {
                    let x = t[i].clone();
                    let j = if cx.c.chance(1, 2) { i } else { cx.c.below(t.len() + 1) };
                    t.insert(j, x);
                    cx.fault("word duplicated");
                }
            }
        }
        10 => {
            let i = cx.c.below(t.len() + 1);
            t.insert(i, op(","));
            cx.fault("word inserted");
        }
        8 => {
            if let Some(i) = at(cx, t, &|x| x.cls != Cls::Op) {
                let x = t[i].clone();
                t.insert(i, x);
                cx.fault("word duplicated");
            }
        }
        _ => {
            let mut done = Vec::new();
            damage::words(&mut cx.c, t, 1, plain, |x| done.push(x));
            for d in done {
                cx.fault(d);
            }
        }
    }
}

/// A word that is one word wherever it stands
fn plain(c: &mut Choices) -> Tok {
    let w = *c.pick(&["(", ")", ",", "=", "<", "<>", "+", "|", "&&", "/", "AND", "OR", "FROM", "WHERE", "BY", "AS", "NULL", "SELECT", "IN"]);
    if w.as_bytes()[0].is_ascii_alphabetic() {
        Tok { cls: Cls::Kw, ..damage::tok(w) }
    } else {
        op(w)
    }
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let alone = cx.c.chance(1, 3);
    let k = if alone { 1 } else { cx.c.range(2, 4) };
    let mut n = 0;
    let mut m = Vec::new();
    let mut bad = Vec::new();
    for i in 0..k {
        let mut x = message(&mut cx.c, o, &mut n, Only::Any, i);
        let mut why = None;
        let blocks = !flat(&x);
        if (alone || flat(&x) && cx.c.chance(2, 3)) && !x.s.copy {
            for _ in 0..1 + cx.c.small(3) {
                if x.s.toks.is_empty() {
                    break;
                }
                hurt(cx, &mut x.s.toks);
            }
            // nothing is left, or what is left belongs to the script
            if x.s.toks.is_empty() || x.s.toks.iter().any(|t| t.text == "$$") {
                return Ok(());
            }
            for t in &mut x.s.toks {
                t.glue = false;
            }
            why = malformed(&x.s.toks, o, blocks);
        }
        m.push(x);
        bad.push(why);
    }
    if bad.iter().all(|b| b.is_none()) {
        return Ok(());
    }
    let s = assemble(cx, o, &m, ";", true);
    let e = if alone && cx.c.chance(1, 2) { Entry::Single } else { Entry::Script };
    cx.log(|| format!("{:?} {:?} {:?} {}", e, o, bad, show(&s.text)));
    sample(cx, &s.text);
    let r = exec::run(&s.text, &o, e)?;
    cx.meter(&r.meter);
    if alone {
        let (w, _) = bad[0].unwrap();
        ensure!(r.errors() > 0, "malformed statement accepted", "{} on {}", w, show(&s.text));
        cx.st.add(w, 1);
    } else {
        let g = groups(&s, &r)?;
        for (i, b) in bad.iter().enumerate() {
            let Some((w, _)) = b else { continue };
            ensure!(g[i].diags.iter().any(|d| d.error), "malformed statement accepted", "{} in statement {} on {}", w, i, show(&s.text));
            cx.st.add(w, 1);
        }
    }
    cx.reached(hash(s.text.as_bytes()));
    Ok(())
}
