//! The collection of diagnostics is a faithful log.

use super::*;
use alloc_crate as alloc;
use crate::choice::mix;
use crate::ensure;
use crate::exec::{self, call, diag, guarded, hash, must, Check, End, Entry, Limits};
use crate::gen::Opts;
use sql_parse::{Issue, Level};
use std::fmt::Write;
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 150_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct histories of one collection",
    real: REAL,
    stub: STUB,
    assumptions: &["what a parse adds is what the same parse puts into a collection of its own (C11)"],
};

#[derive(Clone, Debug)]
struct Entry1 {
    error: bool,
    message: String,
    span: Range<usize>,
    frags: Vec<(String, Range<usize>)>,
}

fn model(i: &Issue) -> Entry1 {
    Entry1 {
        error: i.level == Level::Error,
        message: i.message.to_string(),
        span: i.span.clone(),
        frags: i.fragments.iter().map(|f| (f.message.to_string(), f.span.clone())).collect(),
    }
}

fn agree(i: &Issue, e: &Entry1, src: &str) -> bool {
    (i.level == Level::Error) == e.error
        && (i.level == Level::Warning) != e.error
        && i.message == e.message
        && i.span == e.span
        && i.sql_segment == &src[e.span.clone()]
        && i.fragments.len() == e.frags.len()
        && i.fragments.iter().zip(&e.frags).all(|(f, (m, s))| f.message == *m && f.span == *s && f.sql_segment == &src[s.clone()])
}

const MESSAGES: &[&str] = &["", "note", "two\nlines", "é \u{1F600}", "{} %s {0}", "  Error ", "a rather long message that does not fit the inline buffer of anything"];

fn place(c: &mut Choices, s: &str) -> Range<usize> {
    let a = boundary(c, s);
    let b = if c.chance(1, 4) { a } else { boundary(c, s) };
    a.min(b)..a.max(b)
}

struct Sink {
    left: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        Ok(())
    }
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose_any(&mut cx.c);
    let text = if cx.c.chance(1, 2) { wreck(cx, o) } else { mixed(cx, o, 1, 3).text };
    cx.log(|| format!("{:?} {}", o, show(&text)));
    sample(cx, &text);
    let lim = Limits::for_len(text.len());
    let mut issues = Issues::new(&text);
    let mut log: Vec<Entry1> = Vec::new();
    let mut h = hash(text.as_bytes());
    let steps = 2 + cx.c.below(9);
    for _ in 0..steps {
        let k = cx.c.below(9);
        h = mix(h, k as u64);
        match k {
            0 | 1 => {
                let o = if cx.c.chance(1, 3) { Opts::choose_any(&mut cx.c) } else { o };
                let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
                let (own, m) = exec::with(&text, &o, e, lim, |_, i| i.get().iter().map(model).collect::<Vec<_>>())?;
                if cx.c.chance(1, 4) && m.steps() > 0 {
                    let p = cx.c.below(m.steps() as usize) as u64;
                    let (end, _) = guarded(lim.crash(p), || drop(call(&text, &mut issues, &o, e)));
                    match end {
                        End::Crashed => cx.fault("parse abandoned"),
                        End::Done(()) => {}
                        e => return must(e, &text, &lim),
                    }
                    let n = issues.get().len().saturating_sub(log.len());
                    cx.log(|| format!("parse abandoned at step {}, {} of {} diagnostics", p, n, own.len()));
                    ensure!(n <= own.len(), "too many diagnostics", "{} of {} on {}", n, own.len(), show(&text));
                    log.extend_from_slice(&own[..n]);
                } else {
                    let (end, m) = guarded(lim, || drop(call(&text, &mut issues, &o, e)));
                    must(end, &text, &lim)?;
                    cx.meter(&m);
                    cx.log(|| format!("parse {:?} adds {}", e, own.len()));
                    log.extend(own);
                }
            }
            // sometimes very many at once
            2..=4 => for _ in 0..if cx.c.chance(1, 60) { cx.c.range(10, 300) } else { 1 } {
                if cx.c.chance(1, 12) {
                    // by the macros of the library
                    let span = place(&mut cx.c, &text);
                    let message = if cx.c.chance(1, 2) {
                        sql_parse::issue_ice!(issues, &span); format!("Internal compiler error in {}:{}", file!(), line!())
                    } else {
                        sql_parse::issue_todo!(issues, &span); format!("Not yet implemented {}:{}", file!(), line!())
                    };
                    cx.log(|| format!("add {:?} at {:?}", message, span));
                    log.push(Entry1 { error: true, message, span, frags: Vec::new() });
                    continue;
                }
                let error = cx.c.chance(1, 2);
                let message = cx.c.pick(MESSAGES).to_string();
                let span = place(&mut cx.c, &text);
                let mut frags = Vec::new();
                // sometimes very many notes
                let k = if cx.c.chance(1, 60) { cx.c.range(10, 300) } else { cx.c.small(3) };
                for _ in 0..k {
                    frags.push((cx.c.pick(MESSAGES).to_string(), place(&mut cx.c, &text)));
                }
                cx.log(|| format!("add {} {:?} at {:?} with {:?}", if error { "error" } else { "warning" }, message, span, frags));
                let mut hd = if error { issues.err(message.clone(), &span) } else { issues.warn(message.clone(), &span) };
                for (m, s) in &frags {
                    hd.frag(m.clone(), s);
                }
                log.push(Entry1 { error, message, span, frags });
            }
            5 => {
                let mut all = String::new();
                let _ = write!(all, "{}", issues);
                let left = cx.c.below(all.len() + 1);
                let ok = write!(Sink { left }, "{}", issues).is_ok();
                if !ok {
                    cx.fault("sink failed");
                }
                ensure!(ok == (left == all.len()), "failure of the sink not passed on", "{} of {} bytes on {}", left, all.len(), show(&text));
            }
            6 => {
                // the application takes the diagnostics and goes on
                let v = issues.into_vec();
                ensure!(v.len() == log.len(), "taken diagnostics", "{} of {} on {}", v.len(), log.len(), show(&text));
                issues = Issues::new(&text);
                ensure!(issues.is_ok() && issues.get().is_empty(), "new collection", "on {}", show(&text));
                if cx.c.chance(1, 2) {
                    issues.issues = v;
                } else {
                    log.clear();
                }
                cx.fault("collection replaced");
            }
            7 => {
                // or drops some
                let n = cx.c.below(log.len() + 1);
                issues.issues.truncate(n);
                log.truncate(n);
                cx.fault("diagnostics dropped");
            }
            _ => {
                let s = place(&mut cx.c, &text);
                ensure!(issues.segment(s.clone()) == &text[s.clone()], "segment", "{:?} on {}", s, show(&text));
                let v = issues.get().to_vec();
                ensure!(v.iter().zip(issues.get()).all(|(a, b)| a == b && diag(a) == diag(b)), "copy differs", "on {}", show(&text));
            }
        }
        ensure!(issues.get().len() == log.len(), "number of diagnostics", "{} for {} on {}", issues.get().len(), log.len(), show(&text));
        for (n, (i, e)) in issues.get().iter().zip(&log).enumerate() {
            ensure!(agree(i, e, &text), "other diagnostic", "{}: {:?} for {:?} on {}", n, i, e, show(&text));
        }
        ensure!(issues.is_ok() == log.is_empty(), "is_ok", "{} with {} on {}", issues.is_ok(), log.len(), show(&text));
        ensure!(issues.src == text, "source", "on {}", show(&text));
        h = mix(h, log.len() as u64);
    }
    let v = issues.into_vec();
    ensure!(v.len() == log.len() && v.iter().zip(&log).all(|(i, e)| agree(i, e, &text)), "taken diagnostics", "on {}", show(&text));
    cx.st.add("diagnostics logged", log.len() as u64);
    cx.reached(h);
    Ok(())
}
