//! Operators bind by their documented precedence.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts, MARIA};
use crate::truth::{self, V};

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 300_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct texts",
    real: REAL,
    stub: STUB,
    assumptions: &[
        "the reference is the precedence table of MariaDB; for the other dialects only the part of it on which all of them agree",
        "membership tests and LIKE next to other comparisons are always sent in brackets",
    ],
};

/// What a client means
#[derive(Clone, Debug)]
enum E {
    Leaf(Vec<String>),
    Unary(&'static str, &'static str, Box<E>),
    Binary(&'static str, &'static str, Box<E>, Box<E>),
    In(bool, Box<E>, Vec<E>),
    Is(&'static str, &'static str, Box<E>),
    Call(&'static str, Vec<E>),
    Case(Option<Box<E>>, Vec<(E, E)>, Option<Box<E>>),
}

/// Symbol, variant, level (a higher one binds tighter)
const MARIA_OPS: &[(&str, &str, u8)] = &[
    ("OR", "Or", 1),
    ("||", "Or", 1),
    ("XOR", "Xor", 2),
    ("AND", "And", 3),
    ("&&", "And", 3),
    ("=", "Eq", 5),
    ("<=>", "NullSafeEq", 5),
    (">=", "GtEq", 5),
    (">", "Gt", 5),
    ("<=", "LtEq", 5),
    ("<", "Lt", 5),
    ("<>", "Neq", 5),
    ("!=", "Neq", 5),
    ("|", "BitOr", 6),
    ("&", "BitAnd", 7),
    ("<<", "ShiftLeft", 8),
    (">>", "ShiftRight", 8),
    ("+", "Add", 9),
    ("-", "Subtract", 9),
    ("*", "Mult", 10),
    ("/", "Divide", 10),
];

const COMMON_OPS: &[(&str, &str, u8)] = &[
    ("OR", "Or", 1),
    ("AND", "And", 3),
    ("=", "Eq", 5),
    (">=", "GtEq", 5),
    (">", "Gt", 5),
    ("<=", "LtEq", 5),
    ("<", "Lt", 5),
    ("<>", "Neq", 5),
    ("!=", "Neq", 5),
    ("+", "Add", 9),
    ("-", "Subtract", 9),
    ("*", "Mult", 10),
    ("/", "Divide", 10),
];

/// Symbol, variant, level
const MARIA_UNARY: &[(&str, &str, u8)] = &[("NOT", "Not", 4), ("-", "Minus", 12), ("!", "LogicalNot", 13), ("BINARY", "Binary", 14)];
const COMMON_UNARY: &[(&str, &str, u8)] = &[("NOT", "Not", 4), ("-", "Minus", 12)];

const TESTS: &[(&str, &str)] = &[("NULL", "Null"), ("NOT NULL", "NotNull"), ("TRUE", "True"), ("NOT TRUE", "NotTrue"), ("FALSE", "False"), ("NOT FALSE", "NotFalse"), ("UNKNOWN", "Unknown"), ("NOT UNKNOWN", "NotUnknown")];

fn level(e: &E) -> u8 {
    match e {
        E::Leaf(_) | E::Call(..) | E::Case(..) => 20,
        E::Unary(s, _, _) => MARIA_UNARY.iter().find(|x| x.0 == *s).unwrap().2,
        E::Binary("LIKE" | "NOT LIKE", ..) | E::In(..) | E::Is(..) => 5,
        E::Binary(s, ..) => MARIA_OPS.iter().find(|x| x.0 == *s).unwrap().2,
    }
}

fn tree(c: &mut Choices, maria: bool, depth: usize, n: &mut usize) -> E {
    if depth == 0 || c.chance(1, 6) {
        *n += 1;
        return E::Leaf(match c.below(5) {
            0 => vec![format!("{}", n)],
            1 => vec![format!("t{}", n), ".".into(), format!("c{}", n)],
            2 => vec![format!("'s{}'", n)],
            _ => vec![format!("v{}", n)],
        });
    }
    let mut sub = |c: &mut Choices| tree(c, maria, depth - 1, n);
    match c.below(20) {
        0 | 1 | 2 => {
            let u = c.pick(if maria { MARIA_UNARY } else { COMMON_UNARY });
            E::Unary(u.0, u.1, Box::new(sub(c)))
        }
        3 => {
            let l = sub(c);
            let k = 1 + c.small(2);
            let r = (0..k).map(|_| sub(c)).collect();
            E::In(c.chance(1, 2), Box::new(l), r)
        }
        4 => {
            let t = c.pick(TESTS);
            E::Is(t.0, t.1, Box::new(sub(c)))
        }
        5 => {
            let l = sub(c);
            let r = sub(c);
            let t = *c.pick(&[("LIKE", "Like"), ("NOT LIKE", "NotLike")]);
            E::Binary(t.0, t.1, Box::new(l), Box::new(r))
        }
        6 => {
            let k = c.below(3);
            E::Call(*c.pick(&["GREATEST", "COALESCE", "own_function"]), (0..k).map(|_| sub(c)).collect())
        }
        7 => {
            let v = c.chance(1, 2).then(|| Box::new(sub(c)));
            let k = 1 + c.small(2);
            let w = (0..k).map(|_| (sub(c), sub(c))).collect();
            let e = c.chance(1, 2).then(|| Box::new(sub(c)));
            E::Case(v, w, e)
        }
        _ => {
            let o = c.pick(if maria { MARIA_OPS } else { COMMON_OPS });
            let l = sub(c);
            let r = sub(c);
            E::Binary(o.0, o.1, Box::new(l), Box::new(r))
        }
    }
}

struct W<'c> {
    c: &'c mut Choices,
    maria: bool,
    /// One in so many operands gets brackets that change nothing
    extra: usize,
    out: Vec<(String, Cls)>,
    levels: u64,
}

impl W<'_> {
    fn kw(&mut self, s: &str) {
        for w in s.split(' ') {
            self.out.push((w.to_string(), if w.starts_with(|c: char| c.is_ascii_alphabetic()) { Cls::Kw } else { Cls::Op }));
        }
    }

    fn operand(&mut self, e: &E, need: bool) {
        let more = self.extra > 0 && self.c.below(self.extra) == 0;
        let k = need as usize + more as usize;
        for _ in 0..k {
            self.kw("(");
        }
        self.expr(e);
        for _ in 0..k {
            self.kw(")");
        }
        self.levels += !need as u64;
    }

    /// A prefix operator directly under a tighter operator, or where one
    /// dialect or other does not take it, is put in brackets
    fn child(&mut self, e: &E, of: u8, right: bool, pure: bool) {
        let l = level(e);
        let need = match e {
            E::Leaf(_) | E::Call(..) | E::Case(..) => false,
            E::Unary("NOT", ..) => of >= 4,
            E::Unary(..) => right && of >= 12,
            E::Binary(s, ..) if of == 5 && l == 5 => !pure || right || !self.maria || s.contains("LIKE"),
            E::Is(..) | E::In(..) if of == 5 => true,
            _ => l < of || (l == of && right),
        };
        self.operand(e, need);
    }

    fn expr(&mut self, e: &E) {
        match e {
            E::Leaf(t) => {
                for t in t {
                    let c = match t.as_bytes()[0] {
                        b'0'..=b'9' => Cls::Int,
                        b'\'' => Cls::Str,
                        b'.' => Cls::Op,
                        _ => Cls::Name,
                    };
                    self.out.push((t.clone(), c));
                }
            }
            E::Unary(s, _, x) => {
                self.kw(s);
                let of = level(e);
                let need = match &**x {
                    E::Unary(t, ..) => !(*s == "NOT" && *t == "NOT") && *s != "NOT" && level(x) <= of,
                    E::Leaf(_) | E::Call(..) | E::Case(..) => false,
                    _ => level(x) < of,
                };
                self.operand(x, need);
            }
            E::Binary(s, _, l, r) => {
                let of = level(e);
                let like = s.contains("LIKE");
                self.child(l, of, false, !like);
                self.kw(s);
                // the pattern of LIKE is one operand
                if like {
                    let need = level(r) < 12;
                    self.operand(r, need);
                } else {
                    self.child(r, of, true, true);
                }
            }
            E::In(not, l, r) => {
                self.child(l, 5, false, false);
                self.kw(if *not { "NOT IN" } else { "IN" });
                self.list(r);
            }
            E::Is(t, _, l) => {
                self.child(l, 5, false, true);
                self.kw("IS");
                self.kw(t);
            }
            E::Call(f, a) => {
                self.out.push((f.to_string(), Cls::Name));
                self.list(a);
            }
            E::Case(v, w, x) => {
                self.kw("CASE");
                if let Some(v) = v {
                    self.operand(v, false);
                }
                for (a, b) in w {
                    self.kw("WHEN");
                    self.operand(a, false);
                    self.kw("THEN");
                    self.operand(b, false);
                }
                if let Some(x) = x {
                    self.kw("ELSE");
                    self.operand(x, false);
                }
                self.kw("END");
            }
        }
    }

    fn list(&mut self, l: &[E]) {
        self.kw("(");
        for (i, x) in l.iter().enumerate() {
            if i > 0 {
                self.kw(",");
            }
            self.operand(x, false);
        }
        self.kw(")");
    }
}

fn get<'a>(f: &'a [(String, V)], k: &str) -> Option<&'a V> {
    f.iter().find(|x| x.0 == k).map(|x| &x.1)
}

fn same_list(a: &[E], b: Option<&V>) -> bool {
    matches!(b, Some(V::List(l)) if l.len() == a.len() && a.iter().zip(l).all(|(a, b)| means(a, b)))
}

/// Is this what the client means?
fn means(e: &E, v: &V) -> bool {
    let V::Node(n, f) = v else { return false };
    let at = |k: &str| get(f, k);
    let is = |e: &E, k: &str| at(k).is_some_and(|v| means(e, v));
    let named = |k: &str, w: &str| matches!(at(k), Some(V::Node(n, _)) if n == w);
    match (e, n.as_str()) {
        (E::Leaf(t), "Integer") => matches!(at("0"), Some(V::Tuple(x)) if matches!(&x[0], V::Num(n) if *n == t[0])),
        (E::Leaf(t), "String") => matches!(at("0"), Some(V::Node(_, f)) if matches!(get(f, "value"), Some(V::Str(s)) if format!("'{}'", s) == t[0])),
        (E::Leaf(t), "Identifier") => {
            let names: Vec<&String> = t.iter().filter(|x| *x != ".").collect();
            matches!(at("0"), Some(V::List(l)) if l.len() == names.len() && l.iter().zip(names).all(|(p, n)| {
                matches!(p, V::Node(k, f) if k == "Name" && matches!(f.first(), Some((_, V::Node(_, f))) if matches!(get(f, "value"), Some(V::Str(s)) if s == n)))
            }))
        }
        (E::Unary(_, o, x), "Unary") => named("op", o) && is(x, "operand"),
        (E::Binary(_, o, l, r), "Binary") => named("op", o) && is(l, "lhs") && is(r, "rhs"),
        (E::In(not, l, r), "In") => named("not_in", if *not { "true" } else { "false" }) && is(l, "lhs") && same_list(r, at("rhs")),
        (E::Is(_, t, l), "Is") => is(l, "0") && named("1", t),
        (E::Call(_, a), "Function") => same_list(a, at("1")),
        (E::Case(c, w, x), "Case") => {
            let value = match (c, at("value")) {
                (None, Some(V::Node(n, f))) => n == "None" && f.is_empty(),
                (Some(c), Some(v)) => means(c, v),
                _ => false,
            };
            let whens = matches!(at("whens"), Some(V::List(l)) if l.len() == w.len() && l.iter().zip(w).all(|(v, (a, b))| {
                matches!(v, V::Node(_, f) if get(f, "when").is_some_and(|v| means(a, v)) && get(f, "then").is_some_and(|v| means(b, v)))
            }));
            let els = match (x, at("else_")) {
                (None, Some(V::Node(n, f))) => n == "None" && f.is_empty(),
                (Some(x), Some(V::Tuple(t))) => t.len() == 2 && means(x, &t[1]),
                _ => false,
            };
            value && whens && els
        }
        _ => false,
    }
}

/// Many operators in a row: all of them open at once, or one after the other
fn long(c: &mut Choices, maria: bool, n: &mut usize) -> E {
    let ops = if maria { MARIA_OPS } else { COMMON_OPS };
    let bin = |o: &(&'static str, &'static str, u8), l, r| E::Binary(o.0, o.1, Box::new(l), Box::new(r));
    let mut l: Vec<_> = match c.below(3) {
        // from the loosest to the tightest
        0 => {
            let mut l = Vec::new();
            for v in 1..=10 {
                let same: Vec<_> = ops.iter().filter(|o| o.2 == v).collect();
                if !same.is_empty() && c.chance(4, 5) {
                    l.push(*c.pick(&same));
                }
            }
            let d = c.small(2);
            let mut e = tree(c, maria, d, n);
            for o in l.iter().rev() {
                if o.2 < 4 && c.chance(1, 3) {
                    e = E::Unary("NOT", "Not", Box::new(e));
                }
                let d = c.small(1);
                e = bin(o, tree(c, maria, d, n), e);
            }
            return e;
        }
        1 => {
            let k = 2 + c.below(60);
            let o = c.pick(ops);
            // one level, one after the other
            let same: Vec<_> = ops.iter().filter(|x| x.2 == o.2).collect();
            (0..k).map(|_| *c.pick(&same)).collect()
        }
        _ => {
            let k = 2 + c.below(30);
            (0..k).map(|_| c.pick(ops)).collect()
        }
    };
    let mut e = tree(c, maria, 0, n);
    for o in l.drain(..) {
        let x = tree(c, maria, 0, n);
        e = if c.chance(1, 8) { bin(o, x, e) } else { bin(o, e, x) };
    }
    e
}

/// A statement with these expressions, and where they are in what is returned
const FORMS: &[(&str, usize)] = &[
    ("SELECT # FROM tbl", 1),
    ("SELECT # , # FROM tbl WHERE #", 3),
    ("SELECT a FROM tbl WHERE # GROUP BY # HAVING # ORDER BY #", 4),
    ("UPDATE tbl SET a = # WHERE #", 2),
    ("DELETE FROM tbl WHERE #", 1),
    ("INSERT INTO tbl ( a , b ) VALUES ( # , # )", 2),
    ("SET a = #", 1),
    ("SELECT a FROM tbl JOIN tb2 ON #", 1),
    ("RETURN #", 1),
];

/// All expressions of a statement that are not part of another, in order
fn tops<'a>(v: &'a V, out: &mut Vec<(usize, &'a V)>) {
    const EXPRS: &[&str] = &["Integer", "String", "Identifier", "Unary", "Binary", "In", "Is", "Function", "Case"];
    match v {
        V::Node(n, f) => {
            let name = n == "Identifier" && get(f, "value").is_some();
            if EXPRS.contains(&n.as_str()) && !name {
                out.push((truth::ext(v).map(|r| r.start).unwrap_or(0), v));
            } else {
                f.iter().for_each(|x| tops(&x.1, out));
            }
        }
        V::List(l) | V::Tuple(l) => l.iter().for_each(|x| tops(x, out)),
        _ => (),
    }
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts { warn_id: false, ..Opts::choose(&mut cx.c) };
    let maria = o.dialect == MARIA;
    let mut msgs = Vec::new();
    let mut n = 0;
    let k = 1 + cx.c.below(3);
    for _ in 0..k {
        let (form, slots) = *cx.c.pick(FORMS);
        let d = 1 + cx.c.below(4);
        let es: Vec<E> = (0..slots).map(|_| if cx.c.chance(1, 8) { long(&mut cx.c, maria, &mut n) } else { tree(&mut cx.c, maria, d, &mut n) }).collect();
        msgs.push((form, es));
    }
    // lost, repeated and overtaken
    for _ in 0..cx.c.small(3) {
        if msgs.is_empty() {
            break;
        }
        let i = cx.c.below(msgs.len());
        let x = msgs.remove(i);
        match cx.c.below(3) {
            0 => cx.fault("message lost"),
            1 => {
                msgs.insert(i, x.clone());
                let j = cx.c.below(msgs.len() + 1);
                msgs.insert(j, x);
                cx.fault("message duplicated");
            }
            _ => {
                let j = cx.c.below(msgs.len() + 1);
                msgs.insert(j, x);
                cx.fault("message reordered");
            }
        }
    }
    let mut text = String::new();
    let mut want: Vec<(usize, &(&str, Vec<E>))> = Vec::new();
    for m in &msgs {
        // a damaged neighbour
        if cx.c.chance(1, 6) {
            let mut x = message(&mut cx.c, o, &mut n, Only::Any, 0);
            if flat(&x) {
                damage_words(cx, &mut x);
                place(&mut cx.c, &x, ";", &mut text);
                text.push('\n');
            }
        }
        let extra = *cx.c.pick(&[0, 0, 3, 6]);
        if extra > 0 {
            cx.fault("brackets added by relay");
        }
        let mut w = W { c: &mut cx.c, maria, extra, out: Vec::new(), levels: 0 };
        let mut next = 0;
        for t in m.0.split(' ') {
            if t == "#" {
                w.operand(&m.1[next], false);
                next += 1;
            } else {
                w.kw(t);
            }
        }
        let levels = w.levels;
        let toks: Vec<gen::Tok> = w.out.iter().map(|(t, c)| gen::Tok { cls: *c, ..damage::tok(t) }).collect();
        cx.st.add("operands without brackets", levels);
        want.push((text.len(), m));
        script::layout(&mut cx.c, &toks, &mut text);
        text.push_str(";\n");
    }
    cx.log(|| format!("{:?} {}", o, show(&text)));
    sample(cx, &text);
    let r = exec::run(&text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    for (at, m) in &want {
        let found = r.stmts.iter().find(|d| dbg::extent(d).is_some_and(|e| e.start == *at));
        let Some(d) = found else { return fail("statement lost", format!("at {} on {}", at, show(&text))) };
        let v = truth::parse(d).expect("printed form");
        let mut got = Vec::new();
        tops(&v, &mut got);
        got.sort_by_key(|x| x.0);
        let got: Vec<&V> = got.into_iter().map(|x| x.1).filter(|v| !plain_a(v)).collect();
        ensure!(got.len() == m.1.len(), "expressions", "{} of {} in {} on {}", got.len(), m.1.len(), d, show(&text));
        for (e, v) in m.1.iter().zip(got) {
            ensure!(means(e, v), "grouping", "{:?} is {:?} on {}", e, v, show(&text));
        }
    }
    cx.reached(hash(text.as_bytes()));
    Ok(())
}

/// The column that is selected where the expression is elsewhere
fn plain_a(v: &V) -> bool {
    matches!(v, V::Node(n, f) if n == "Identifier" && matches!(f.first(), Some((_, V::List(l))) if l.len() == 1 && format!("{:?}", l[0]).contains("Str(\"a\")")))
}
