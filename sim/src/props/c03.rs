//! Diagnostic rendering survives failing sinks.

use super::*;
use crate::choice::mix;
use crate::ensure;
use crate::exec::{call, diag, guarded, hash, must, Check, Entry, Limits};
use crate::gen::Opts;
use sql_parse::Level;
use std::fmt::Write;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 800_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct (collection, failure point, kind of failure) in which the sink failed",
    real: REAL,
    stub: "clients, the application that adds diagnostics and the sink are simulated",
    assumptions: &[],
};

/// A sink that fails once it got `left` bytes (or after `left` writes)
struct Sink {
    got: Vec<u8>,
    left: usize,
    /// 0: takes what fits, 1: refuses the whole write
    kind: usize,
    failed: bool,
    after: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            // the disk has room again
            self.after += 1;
            self.got.extend_from_slice(s.as_bytes());
            return Ok(());
        }
        if s.len() <= self.left {
            self.left -= s.len();
            self.got.extend_from_slice(s.as_bytes());
            return Ok(());
        }
        self.failed = true;
        if self.kind == 0 {
            let n = self.left;
            self.got.extend_from_slice(&s.as_bytes()[..n]);
        }
        Err(std::fmt::Error)
    }
}

/// Finds the pieces in order with little between them.  Excerpts may be empty
/// or a blank, so all places where the pieces so far may end are kept.
struct Find<'a> {
    s: &'a str,
    at: Vec<usize>,
}

impl Find<'_> {
    fn next(&mut self, what: &str, name: &str, number: bool) -> Check {
        let mut to = Vec::new();
        for a in &self.at {
            let mut e = (a + 32 + what.len()).min(self.s.len());
            while !self.s.is_char_boundary(e) {
                e += 1;
            }
            let rest = &self.s[*a..e];
            let mut i = 0;
            while i + what.len() <= rest.len() {
                if rest.is_char_boundary(i) {
                    if rest[i..].starts_with(what) && !(number && self.s[a + i + what.len()..].starts_with(|c: char| c.is_ascii_digit())) {
                        to.push(a + i + what.len());
                    }
                    if rest[i..].starts_with(|c: char| c.is_ascii_digit()) {
                        break;
                    }
                }
                i += 1;
            }
        }
        to.sort();
        to.dedup();
        ensure!(!to.is_empty(), "rendering", "no {} {:?} at {:?} in {:?}", name, cut(what, 100), cut(&self.s[self.at[0]..], 200), cut(self.s, 600));
        self.at = to;
        Ok(())
    }
}

fn check_full(text: &str, issues: &Issues) -> Check {
    let line = |p: usize| text.as_bytes()[..p].iter().filter(|b| **b == b'\n').count() + 1;
    let s = format!("{}", issues);
    if issues.get().is_empty() {
        let l = s.to_ascii_lowercase();
        ensure!(l.contains("no issues") && s.len() < 40, "rendering", "of an empty collection: {:?}", s);
        return Ok(());
    }
    let mut f = Find { s: &s, at: vec![0] };
    for i in issues.get() {
        f.next(if i.level == Level::Error { "Error" } else { "Warning" }, "level", false)?;
        f.next(&i.message, "message", false)?;
        f.next(&line(i.span.start).to_string(), "line number", true)?;
        f.next(&text[i.span.clone()], "excerpt", false)?;
        for g in &i.fragments {
            f.next(&g.message, "note", false)?;
            f.next(&line(g.span.start).to_string(), "line number", true)?;
            f.next(&text[g.span.clone()], "excerpt of note", false)?;
        }
    }
    let rest = &s[*f.at.last().unwrap()..];
    ensure!(rest.len() <= 32 && !rest.contains(|c: char| c.is_alphanumeric()), "rendering", "trailing {:?}", rest);
    Ok(())
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose_any(&mut cx.c);
    let text = if cx.c.chance(1, 2) { wreck(cx, o) } else { mixed(cx, o, 1, 3).text };
    let lim = Limits::for_len(text.len());
    let mut issues = Issues::new(&text);
    let own = cx.c.small(3);
    add_own(&mut cx.c, own, &mut issues);
    let parses = cx.c.below(3);
    for _ in 0..parses {
        let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
        let (end, m) = guarded(lim, || {
            call(&text, &mut issues, &o, e);
        });
        must(end, &text, &lim)?;
        cx.meter(&m);
        let own = cx.c.small(1);
        add_own(&mut cx.c, own, &mut issues);
    }
    let before: Vec<String> = issues.get().iter().map(|i| diag(i).dump).collect();
    cx.log(|| format!("{:?} {}\n{} diagnostics", o, show(&text), before.len()));
    let (end, _) = guarded(Limits { steps: 10, ..lim }, || check_full(&text, &issues));
    must(end, &text, &lim)??;
    let full = format!("{}", issues);
    sample(cx, &full);
    cx.st.add("diagnostics rendered", before.len() as u64);
    let k = 1 + cx.c.below(8);
    for _ in 0..k {
        let left = cx.c.below(full.len() + 1);
        let kind = cx.c.below(2);
        let mut sink = Sink { got: Vec::new(), left, kind, failed: false, after: 0 };
        let r = write!(sink, "{}", issues);
        cx.log(|| format!("sink fails at byte {} kind {}", left, kind));
        if left == full.len() {
            ensure!(r.is_ok() && sink.got == full.as_bytes(), "healthy sink", "differs");
            continue;
        }
        cx.fault(if kind == 0 { "short write" } else { "write refused" });
        ensure!(r.is_err(), "error lost", "sink failed at byte {} of {:?}", left, cut(&full, 300));
        ensure!(sink.after == 0, "written after failure", "sink failed at byte {} of {:?}", left, cut(&full, 300));
        ensure!(
            full.as_bytes().starts_with(&sink.got) && (kind == 1 || sink.got.len() == left),
            "not a prefix",
            "sink failed at byte {}, got {:?}",
            left,
            String::from_utf8_lossy(&sink.got)
        );
        cx.reached(mix(hash(full.as_bytes()), mix(left as u64, kind as u64)));
    }
    let after: Vec<String> = issues.get().iter().map(|i| diag(i).dump).collect();
    ensure!(before == after && issues.is_ok() == after.is_empty(), "collection changed", "by rendering {:?}", full);
    ensure!(format!("{}", issues) == full, "retry differs", "{:?}", full);
    Ok(())
}
