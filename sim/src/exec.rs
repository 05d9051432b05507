//! Runs the real parser under the simulator: step counting, step budget,
//! injected crashes, thread switches, memory metering.

use crate::alloc::{self, Mem};
use crate::gen::Opts;
use crate::sched;
use sql_parse::sim::{set_hook, Point};
use sql_parse::{parse_statement, parse_statements, Issue, Issues, Level, Spanned, Statement};
use std::cell::{Cell, RefCell};
use std::ops::Range;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable name of what is broken, kept while minimising
    pub class: String,
    pub detail: String,
}

pub type Check = Result<(), Violation>;

pub fn fail<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c { return $crate::exec::fail($class, format!($($a)*)); }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry {
    Script,
    Single,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Meter {
    pub tokens: u64,
    pub stdin: u64,
    pub issues: u64,
    pub mem: Mem,
}

impl Meter {
    pub fn steps(&self) -> u64 {
        self.tokens + self.stdin + self.issues
    }
}

#[derive(Clone, Copy)]
struct State {
    tokens: u64,
    stdin: u64,
    issues: u64,
    budget: u64,
    crash_at: u64,
    sched: bool,
}

const IDLE: State = State { tokens: 0, stdin: 0, issues: 0, budget: u64::MAX, crash_at: u64::MAX, sched: false };

thread_local! {
    static ST: Cell<State> = const { Cell::new(IDLE) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Crash;
struct OutOfSteps;

fn on_point(p: Point) {
    let mut s = ST.with(|s| s.get());
    match p {
        Point::Token => s.tokens += 1,
        Point::Stdin => s.stdin += 1,
        Point::Issue => s.issues += 1,
    }
    ST.with(|c| c.set(s));
    let n = s.tokens + s.stdin + s.issues;
    if s.sched {
        sched::yield_point();
    }
    if n > s.crash_at {
        resume_unwind(Box::new(Crash));
    }
    if n > s.budget {
        resume_unwind(Box::new(OutOfSteps));
    }
}

/// Install a panic hook that only remembers the message
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let m = match i.location() {
            Some(l) => format!("{} at {}:{}", m, l.file().rsplit("/repo/").next().unwrap_or(""), l.line()),
            None => m,
        };
        let _ = PANIC.try_with(|p| *p.borrow_mut() = m);
    }));
}

pub enum End<T> {
    Done(T),
    Crashed,
    OutOfSteps,
    Panic(String),
}

#[derive(Clone, Copy)]
pub struct Limits {
    pub steps: u64,
    pub mem: u64,
    pub crash_at: Option<u64>,
    pub sched: bool,
}

impl Limits {
    pub fn for_len(len: usize) -> Limits {
        Limits { steps: 16 * len as u64 + 1000, mem: (len as u64 + 10) * 100_000 + 200_000_000, crash_at: None, sched: false }
    }
    pub fn crash(self, at: u64) -> Limits {
        Limits { crash_at: Some(at), ..self }
    }
}

pub fn guarded<T>(lim: Limits, f: impl FnOnce() -> T) -> (End<T>, Meter) {
    ST.with(|s| s.set(State { budget: lim.steps, crash_at: lim.crash_at.unwrap_or(u64::MAX), sched: lim.sched, ..IDLE }));
    set_hook(Some(on_point));
    let m0 = alloc::start(lim.mem);
    if lim.sched {
        alloc::set_hook(Some(sched::yield_point));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if lim.sched {
        alloc::set_hook(None);
    }
    let m1 = alloc::get();
    alloc::unlimit();
    set_hook(None);
    let s = ST.with(|s| s.replace(IDLE));
    let meter = Meter {
        tokens: s.tokens,
        stdin: s.stdin,
        issues: s.issues,
        mem: Mem { live: m1.live - m0.live, peak: m1.peak - m0.live, total: m1.total - m0.total, count: m1.count - m0.count },
    };
    let e = match r {
        Ok(v) => End::Done(v),
        Err(p) => {
            if p.is::<Crash>() {
                End::Crashed
            } else if p.is::<OutOfSteps>() {
                End::OutOfSteps
            } else {
                drop(p);
                End::Panic(PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
            }
        }
    };
    (e, meter)
}

/// The call under test
pub fn call<'a>(text: &'a str, issues: &mut Issues<'a>, o: &Opts, e: Entry) -> Vec<Statement<'a>> {
    let options = o.options();
    match e {
        Entry::Script => parse_statements(text, issues, &options),
        Entry::Single => parse_statement(text, issues, &options).into_iter().collect(),
    }
}

/// A diagnostic, copied out
#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub error: bool,
    pub span: Range<usize>,
    pub dump: String,
}

#[derive(Clone, Debug)]
pub struct Res {
    pub stmts: Vec<String>,
    pub diags: Vec<Diag>,
    pub meter: Meter,
}

impl Res {
    pub fn errors(&self) -> usize {
        self.diags.iter().filter(|d| d.error).count()
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        for x in &self.stmts {
            s.push_str(x);
            s.push('\n');
        }
        for x in &self.diags {
            s.push_str(&x.dump);
            s.push('\n');
        }
        s
    }
    pub fn diag_dump(&self) -> String {
        self.diags.iter().map(|d| d.dump.as_str()).collect::<Vec<_>>().join("\n")
    }
}

pub fn diag(i: &Issue) -> Diag {
    Diag { error: i.level == Level::Error, span: i.span.clone(), dump: format!("{:?}", i) }
}

/// Everything a caller may do with what was returned
pub fn use_all(stmts: &[Statement], issues: &Issues) -> (Vec<String>, Vec<Diag>) {
    let mut d = Vec::with_capacity(stmts.len());
    for s in stmts {
        let _ = s.span();
        let c = s.clone();
        let a = format!("{:?}", s);
        drop(c);
        d.push(a);
    }
    (d, issues.get().iter().map(diag).collect())
}

/// Unwrap a guarded run in which nothing may go wrong
pub fn must<T>(end: End<T>, text: &str, lim: &Limits) -> Result<T, Violation> {
    match end {
        End::Done(v) => Ok(v),
        End::Crashed => fail("crash", "unexpected injected crash"),
        End::OutOfSteps => fail("hang", format!("more than {} steps for {} bytes: {:?}", lim.steps, text.len(), cut(text, 300))),
        End::Panic(m) => fail(&format!("panic {}", m), format!("on {:?}", cut(text, 300))),
    }
}

/// Parse, look at the result, drop everything
pub fn with<T>(text: &str, o: &Opts, e: Entry, lim: Limits, f: impl for<'a> FnOnce(&[Statement<'a>], &Issues<'a>) -> T) -> Result<(T, Meter), Violation> {
    let (end, meter) = guarded(lim, || {
        let mut issues = Issues::new(text);
        let stmts = call(text, &mut issues, o, e);
        f(&stmts, &issues)
    });
    Ok((must(end, text, &lim)?, meter))
}

/// Parse, use everything, drop everything
pub fn run_lim(text: &str, o: &Opts, e: Entry, lim: Limits) -> Result<Res, Violation> {
    let ((stmts, diags), meter) = with(text, o, e, lim, use_all)?;
    Ok(Res { stmts, diags, meter })
}

pub fn run(text: &str, o: &Opts, e: Entry) -> Result<Res, Violation> {
    run_lim(text, o, e, Limits::for_len(text.len()))
}

pub fn cut(s: &str, n: usize) -> &str {
    if s.len() <= n {
        return s;
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    &s[..i]
}

pub fn hash(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// First place where two printed forms differ
pub fn diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let mut s = n.saturating_sub(60);
    while !a.is_char_boundary(s) || !b.is_char_boundary(s) {
        s -= 1;
    }
    format!("…{:?} versus …{:?}", cut(&a[s..], 160), cut(&b[s..], 160))
}
