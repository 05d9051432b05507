//! One module per property, and what they share: simulated clients, the
//! delivery path and the layout of what arrives.

use crate::choice::Choices;
use crate::ctx::{Ctx, Prop};
use crate::damage;
use crate::dbg;
use crate::exec::{cut, diff, fail, Diag, Res, Violation};
use crate::gen::{self, Only, Opts, Stmt};
use crate::script::{self, Item, Script};
use sql_parse::Issues;

pub use c21::value as c21_value;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c26;

pub static PROPS: &[Prop] = &[
    c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP,
    c14::PROP, c15::PROP, c16::PROP, c20::PROP, c21::PROP, c22::PROP, c23::PROP, c24::PROP, c25::PROP, c26::PROP, c27::PROP, c28::PROP, c29::PROP, c30::PROP, c31::PROP, c32::PROP,
];

pub const REAL: &str = "all of sql-parse (lexer, parser, every statement module, diagnostics, Display), built from /repo with --cfg sql_parse_sim";
pub const STUB: &str = "the clients that write scripts, the delivery path, the caller and its allocator accounting are simulated";

/// What one client sends
#[derive(Clone)]
pub struct Msg {
    pub s: Stmt,
    pub data: Option<String>,
    /// Text sent instead, if the words were damaged
    pub damaged: Option<String>,
    pub id: usize,
}

pub fn message(c: &mut Choices, o: Opts, n: &mut usize, only: Only, id: usize) -> Msg {
    let s = gen::stmt(c, o, n, only);
    let data = s.copy.then(|| script::data(c));
    Msg { s, data, damaged: None, id }
}

pub fn messages(c: &mut Choices, o: Opts, lo: usize, hi: usize, only: Only) -> Vec<Msg> {
    let mut n = 0;
    let mut k = c.range(lo, hi);
    if hi > 2 && c.chance(1, 250) {
        // a burst
        k = *c.pick(&[12usize, 17, 34, 70, 140, 270]);
    }
    (0..k).map(|i| message(c, o, &mut n, only, i)).collect()
}

/// Whole messages lost, repeated and overtaken on the way
pub fn deliver(cx: &mut Ctx, mut m: Vec<Msg>) -> Vec<Msg> {
    let k = cx.c.small(4);
    for _ in 0..k {
        if m.is_empty() {
            break;
        }
        let i = cx.c.below(m.len());
        match cx.c.below(3) {
            0 => {
                m.remove(i);
                cx.fault("message lost");
            }
            1 => {
                let x = m[i].clone();
                let j = cx.c.below(m.len() + 1);
                m.insert(j, x);
                cx.fault("message duplicated");
            }
            _ => {
                let x = m.remove(i);
                let j = cx.c.below(m.len() + 1);
                m.insert(j, x);
                cx.fault("message reordered");
            }
        }
    }
    m
}

/// Damage the words of a flat message; its terminator still arrives
pub fn damage_words(cx: &mut Ctx, m: &mut Msg) {
    let mut t = m.s.toks.clone();
    let k = 1 + cx.c.small(3);
    let mut done = Vec::new();
    damage::words(&mut cx.c, &mut t, k, damage::foreign, |x| done.push(x));
    for d in done {
        cx.fault(d);
    }
    m.damaged = Some(damage::spread(&mut cx.c, &t));
}

/// Lay out what arrived
pub fn assemble(cx: &mut Ctx, o: Opts, msgs: &[Msg], term: &str, keepalives: bool) -> Script {
    let mut text = String::new();
    let mut items = Vec::new();
    for m in msgs {
        if keepalives {
            let k = cx.c.small(2);
            for _ in 0..k {
                gen::keepalive(&mut cx.c, &mut text, term);
                cx.fault("keep-alive");
            }
        }
        items.push(place(&mut cx.c, m, term, &mut text));
        if items.len() < msgs.len() && cx.c.chance(1, 2) {
            text.push('\n');
        }
    }
    Script { text, items, opts: o }
}

/// Append one message
pub fn place(c: &mut Choices, m: &Msg, term: &str, text: &mut String) -> Item {
    match &m.damaged {
        None => script::append(c, &m.s, term, m.data.as_deref(), text),
        Some(d) => {
            let start = text.len();
            text.push_str(d);
            let body_end = text.len();
            text.push(' ');
            let t = text.len();
            text.push_str(term);
            Item { kind: m.s.kind, toks: Vec::new(), start, body_end, term: t..text.len(), data: None, compound: false, nesting: false }
        }
    }
}

/// May the words of it be damaged without touching terminators?
pub fn flat(m: &Msg) -> bool {
    !m.s.compound && !m.s.copy && !m.s.nesting()
}

pub fn show(s: &str) -> String {
    format!("{:?}", crate::exec::cut(s, 2000))
}

/// A script with valid and damaged statements
pub fn mixed(cx: &mut Ctx, o: Opts, lo: usize, hi: usize) -> Script {
    let mut m = messages(&mut cx.c, o, lo, hi, Only::Any);
    for x in &mut m {
        if flat(x) && cx.c.chance(1, 3) {
            damage_words(cx, x);
        }
    }
    assemble(cx, o, &m, ";", true)
}

/// Anything that may arrive: damaged at the level of words and bytes
pub fn wreck(cx: &mut Ctx, o: Opts) -> String {
    let mut text = String::new();
    match cx.c.below(8) {
        // words of a supported script
        0 | 1 | 2 => {
            let mut m = messages(&mut cx.c, o, 1, 3, Only::Any);
            for x in &mut m {
                let mut t = x.s.toks.clone();
                let k = cx.c.small(5);
                let mut done = Vec::new();
                damage::words(&mut cx.c, &mut t, k, damage::any, |x| done.push(x));
                for d in done {
                    cx.fault(d);
                }
                script::layout(&mut cx.c, &t, &mut text);
                if !cx.c.chance(1, 8) {
                    text.push(';');
                } else {
                    cx.fault("terminator lost");
                }
                if let Some(d) = &x.data {
                    text.push('\n');
                    text.push_str(d);
                    text.push_str("\\.\n");
                }
            }
        }
        // a statement spliced into another
        3 => {
            let m = messages(&mut cx.c, o, 2, 3, Only::Any);
            let mut t = m[0].s.toks.clone();
            for x in &m[1..] {
                let i = cx.c.below(t.len() + 1);
                let n = x.s.toks.len();
                let a = cx.c.below(n);
                let b = a + cx.c.below(n - a + 1);
                t.splice(i..i, x.s.toks[a..b].iter().cloned());
                cx.fault("messages interleaved");
            }
            script::layout(&mut cx.c, &t, &mut text);
            text.push(';');
        }
        // a prefix of a supported statement and then anything
        4 | 5 => {
            let m = message(&mut cx.c, o, &mut 0, Only::Any, 0);
            let k = cx.c.below(m.s.toks.len() + 1);
            let mut t = m.s.toks[..k].to_vec();
            for _ in 0..1 + cx.c.below(8) {
                t.push(damage::any(&mut cx.c));
            }
            if cx.c.chance(1, 2) {
                t.extend_from_slice(&m.s.toks[k..]);
            }
            cx.fault("foreign words");
            text = damage::spread(&mut cx.c, &t);
            if cx.c.chance(1, 2) {
                text.push(';');
            }
        }
        // only words
        6 => {
            let mut t = Vec::new();
            for _ in 0..1 + cx.c.below(20) {
                t.push(damage::any(&mut cx.c));
            }
            cx.fault("foreign words");
            text = damage::spread(&mut cx.c, &t);
        }
        _ => text = mixed(cx, o, 1, 4).text,
    }
    if cx.c.chance(1, 3) {
        let k = 1 + cx.c.small(6);
        let mut done = Vec::new();
        text = damage::bytes(&mut cx.c, &text, k, |x| done.push(x));
        for d in done {
            cx.fault(d);
        }
    }
    text
}

pub struct Group<'r> {
    pub stmts: Vec<&'r str>,
    pub diags: Vec<&'r Diag>,
}

/// What was returned and reported for each item
pub fn groups<'r>(s: &Script, r: &'r Res) -> Result<Vec<Group<'r>>, Violation> {
    let mut g: Vec<Group> = s.items.iter().map(|_| Group { stmts: Vec::new(), diags: Vec::new() }).collect();
    let find = |p: usize| s.items.iter().position(|i| i.start <= p && p < i.end());
    for d in &r.stmts {
        let at = dbg::extent(d).map(|e| e.start);
        match at.and_then(find) {
            Some(i) => g[i].stmts.push(d),
            None => return fail("statement from nowhere", format!("{} in {}", d, show(&s.text))),
        }
    }
    for d in &r.diags {
        match find(d.span.start) {
            Some(i) => g[i].diags.push(d),
            None => return fail("diagnostic from nowhere", format!("{} in {}", d.dump, show(&s.text))),
        }
    }
    Ok(g)
}

/// Is `a` the same as `b` moved by `base`, with all running placeholder
/// numbers moved by `delta`?  An unknown delta is taken from the first one.
pub fn same(a: &str, b: &str, base: i64, delta: &mut Option<i64>, dollar: bool) -> Result<(), String> {
    if delta.is_none() {
        if let (Some(x), Some(y)) = (dbg::running(a, dollar).first(), dbg::running(b, dollar).first()) {
            *delta = Some(*x as i64 - *y as i64);
        }
    }
    let s = dbg::shift(a, base, delta.unwrap_or(0), dollar);
    // normalises empty positions alike
    let t = dbg::shift(b, 0, 0, dollar);
    if s == t {
        Ok(())
    } else {
        Err(diff(&s, &t))
    }
}

/// Compare two groups
pub fn same_group(a: &Group, b: &Group, base: i64, delta: &mut Option<i64>, dollar: bool) -> Result<(), String> {
    if a.stmts.len() != b.stmts.len() {
        return Err(format!("{} statements versus {}", a.stmts.len(), b.stmts.len()));
    }
    for (x, y) in a.stmts.iter().zip(&b.stmts) {
        same(x, y, base, delta, dollar)?;
    }
    if a.diags.len() != b.diags.len() {
        return Err(format!(
            "{} diagnostics versus {}: {} versus {}",
            a.diags.len(),
            b.diags.len(),
            a.diags.last().map(|d| d.dump.as_str()).unwrap_or(""),
            b.diags.last().map(|d| d.dump.as_str()).unwrap_or("")
        ));
    }
    for (x, y) in a.diags.iter().zip(&b.diags) {
        same(&x.dump, &y.dump, base, &mut Some(0), dollar)?;
    }
    Ok(())
}

pub fn whole(r: &Res) -> Group<'_> {
    Group { stmts: r.stmts.iter().map(|s| s.as_str()).collect(), diags: r.diags.iter().collect() }
}

/// A string for the evidence file
pub fn sample(cx: &mut Ctx, s: &str) {
    if cx.sample.is_none() {
        cx.sample = Some(cut(s, 300).to_string());
    }
}

/// Any character boundary up to the end
pub fn boundary(c: &mut Choices, s: &str) -> usize {
    let mut i = c.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A client or the application adds diagnostics of its own
pub fn add_own(c: &mut Choices, n: usize, issues: &mut Issues<'_>) {
    for k in 0..n {
        let src = issues.src;
        let a = boundary(c, src);
        let b = boundary(c, src);
        let sp = a.min(b)..a.max(b);
        let err = c.chance(1, 2);
        let f = c.small(2);
        let fr: Vec<_> = (0..f)
            .map(|_| {
                let a = boundary(c, src);
                let b = boundary(c, src);
                a.min(b)..a.max(b)
            })
            .collect();
        let mut h = if err { issues.err(format!("own error {}", k), &sp) } else { issues.warn("own warning", &sp) };
        for r in &fr {
            h.frag("own note", r);
        }
    }
}

/// Placeholders of an item that are numbered in order of delivery
pub fn placeholders(it: &Item) -> i64 {
    it.toks.iter().filter(|t| t.0.cls == gen::Cls::Arg && t.0.val == gen::Val::Arg(None)).count() as i64
}
