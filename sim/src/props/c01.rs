//! Parses never influence one another: seeded scheduling of real threads
//! against results from a process that never parsed before.

use super::*;
use crate::choice::mix;
use crate::exec::{self, guarded, Check, Entry, End, Limits};
use crate::fork::{in_child, In, Out};
use crate::gen::Opts;
use std::sync::Mutex;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 50_000,
    thorough_s: 600,
    level: "exploration",
    rule: "distinct thread interleavings: hash of the sequence of (thread, points run) together with the texts parsed",
    real: REAL,
    stub: "clients, the scheduler that decides at every token, inline data read, diagnostic and allocation which thread goes on, and buffer reuse are simulated; threads are real OS threads of which one runs at a time; each run happens in a forked process that has not parsed anything before, and so does each reference parse",
    assumptions: &["switches happen at tokens, diagnostics, inline data reads and allocations, not between machine instructions", "sequentially consistent memory"],
};

fn reference(text: &str, o: &Opts, e: Entry) -> String {
    let r = in_child(|| match exec::run(text, o, e) {
        Ok(r) => r.dump().into_bytes(),
        Err(v) => format!("!{}", v.class).into_bytes(),
    });
    match r {
        Some(v) => String::from_utf8_lossy(&v).into_owned(),
        None => "!abort".into(),
    }
}

#[derive(Clone)]
struct Job {
    text: usize,
    o: Opts,
    e: Entry,
    /// Abandon it at this step
    crash: Option<u64>,
    /// Parse it out of a buffer used before, at this offset
    reuse: Option<usize>,
}

/// One parse of a job
fn perform(j: &Job, texts: &[String], buf: &mut String, sched: bool) -> (String, exec::Meter) {
    let text = match j.reuse {
        Some(n) => {
            buf.clear();
            for _ in 0..n {
                buf.push('x');
            }
            buf.push_str(&texts[j.text]);
            &buf[n..]
        }
        None => texts[j.text].as_str(),
    };
    let mut lim = Limits { sched, ..Limits::for_len(text.len()) };
    lim.crash_at = j.crash;
    let (end, m) = guarded(lim, || {
        let mut issues = Issues::new(text);
        let s = exec::call(text, &mut issues, &j.o, j.e);
        let (stmts, diags) = exec::use_all(&s, &issues);
        Res { stmts, diags, meter: Default::default() }
    });
    let r = match end {
        End::Done(r) => r.dump(),
        End::Crashed => "!crashed".into(),
        End::OutOfSteps => "!hang".into(),
        End::Panic(p) => format!("!panic {}", p),
    };
    (r, m)
}

/// All parses of a run, in a process that has parsed nothing yet
fn perform_all(c: crate::choice::Choices, texts: &[String], history: &[Job], rounds: usize, jobs: &[Vec<Job>], max_run: usize) -> Vec<u8> {
    let cap = texts.iter().map(|t| t.len()).max().unwrap_or(0) + 80;
    let out: Mutex<Vec<(usize, usize, String)>> = Mutex::new(Vec::new());
    let meters: Mutex<exec::Meter> = Mutex::new(exec::Meter::default());
    let count = |m: &exec::Meter| {
        let mut t = meters.lock().unwrap();
        t.tokens += m.tokens;
        t.issues += m.issues;
        t.stdin += m.stdin;
    };
    // what happened before
    let mut buf = String::with_capacity(cap);
    let mut first = vec![None; history.len()];
    for _ in 0..rounds {
        for (k, j) in history.iter().enumerate() {
            let (d, m) = perform(j, texts, &mut buf, false);
            count(&m);
            let h = exec::hash(d.as_bytes());
            if first[k] != Some(h) {
                let mut o = out.lock().unwrap();
                if o.len() < 1000 {
                    o.push((usize::MAX, k, d));
                }
                first[k].get_or_insert(h);
            }
        }
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for (i, v) in jobs.iter().enumerate() {
        let (out, count) = (&out, &count);
        bodies.push(Box::new(move || {
            let mut buf = String::with_capacity(cap);
            for (k, j) in v.iter().enumerate() {
                let (r, m) = perform(j, texts, &mut buf, true);
                count(&m);
                out.lock().unwrap().push((i, k, r));
            }
        }));
    }
    let (c, log) = crate::sched::run(c, max_run, bodies);
    let mut w = Out::default();
    w.n(c.rec.len() as u64);
    for x in &c.rec {
        w.n(*x as u64);
    }
    let m = meters.into_inner().unwrap();
    w.n(m.tokens);
    w.n(m.issues);
    w.n(m.stdin);
    w.n(log.len() as u64);
    for (t, n) in &log {
        w.n(*t as u64);
        w.n(*n as u64);
    }
    let out = out.into_inner().unwrap();
    w.n(out.len() as u64);
    for (i, k, r) in &out {
        w.n(*i as u64);
        w.n(*k as u64);
        w.s(r);
    }
    w.0
}

fn job(cx: &mut Ctx, texts: &[String], o: Opts) -> Job {
    let text = cx.c.below(texts.len());
    let o = if cx.c.chance(1, 3) { Opts::choose_any(&mut cx.c) } else { o };
    let e = if cx.c.chance(1, 3) { Entry::Single } else { Entry::Script };
    let crash = cx.c.chance(1, 5).then(|| cx.c.below(60) as u64);
    let far = cx.c.chance(1, 4);
    let reuse = cx.c.chance(1, 2).then(|| cx.c.below(if far { 70 } else { 5 }));
    Job { text, o, e, crash, reuse }
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose_any(&mut cx.c);
    let nt = 1 + cx.c.below(3);
    let mut texts: Vec<String> = Vec::new();
    for _ in 0..nt {
        let t = match cx.c.below(4) {
            0 => wreck(cx, o),
            1 if !texts.is_empty() => {
                // same length, other content
                let k = cx.c.below(texts.len());
                let t = texts[k].clone();
                let from = *cx.c.pick(b"aeITSxo01,();'");
                let to = *cx.c.pick(b"beATEyp10;)($\"");
                t.bytes().map(|b| if b == from { to } else { b } as char).collect::<String>()
            }
            _ => mixed(cx, o, 1, 3).text,
        };
        texts.push(t);
    }
    let mut history = Vec::new();
    let mut rounds = 0;
    if cx.c.chance(1, 3) {
        let k = 1 + cx.c.below(4);
        for _ in 0..k {
            history.push(job(cx, &texts, o));
        }
        rounds = 1 + cx.c.small(4);
        let long = cx.c.below(if cx.thorough { 3000 } else { 4000 });
        let most: usize = match long {
            3990.. => 2_000_000,
            2980..=2999 if cx.thorough => 10_000_000,
            2900..=2979 => 100_000,
            2500..=2899 => 20_000,
            _ => 0,
        };
        if most > 0 {
            let len: usize = history.iter().map(|j| texts[j.text].len() + 20).sum();
            rounds = 1 + cx.c.below((most / len).clamp(1, 70_000));
            cx.fault("long history");
        }
    }
    let threads = 1 + cx.c.below(if cx.thorough { 5 } else { 4 });
    let mut jobs: Vec<Vec<Job>> = Vec::new();
    for _ in 0..threads {
        let k = 1 + cx.c.below(3);
        let mut v = Vec::new();
        for _ in 0..k {
            v.push(job(cx, &texts, o));
        }
        jobs.push(v);
    }
    let max_run = *cx.c.pick(&[2usize, 5, 20, 200]);
    for (i, t) in texts.iter().enumerate() {
        cx.log(|| format!("text {}: {}", i, show(t)));
    }
    let tell = |j: &Job| {
        format!(
            "text {} {:?} {:?}{}{}",
            j.text,
            j.e,
            j.o,
            j.crash.map(|c| format!(", crash at step {}", c)).unwrap_or_default(),
            j.reuse.map(|c| format!(", reused buffer at offset {}", c)).unwrap_or_default()
        )
    };
    for j in &history {
        cx.log(|| format!("before, {} times: {}", rounds, tell(j)));
    }
    for (i, v) in jobs.iter().enumerate() {
        for j in v {
            cx.log(|| format!("thread {}: {}", i, tell(j)));
        }
    }
    let c = std::mem::replace(&mut cx.c, crate::choice::Choices::replay(Vec::new()));
    let rec = c.rec.clone();
    let Some(v) = in_child(|| perform_all(c, &texts, &history, rounds, &jobs, max_run)) else {
        cx.c.rec = rec;
        return fail("interference ends the process", format!("threads {}, texts {:?}", threads, texts));
    };
    let mut r = In(&v);
    cx.c.rec = (0..r.n()).map(|_| r.n() as u32).collect();
    let m = exec::Meter { tokens: r.n(), issues: r.n(), stdin: r.n(), ..Default::default() };
    cx.meter(&m);
    let log: Vec<(u64, u64)> = (0..r.n()).map(|_| (r.n(), r.n())).collect();
    let out: Vec<(usize, usize, String)> = (0..r.n()).map(|_| (r.n() as usize, r.n() as usize, r.s())).collect();
    cx.faults("thread switched", log.len() as u64);
    let mut h = 0u64;
    for (t, n) in &log {
        h = mix(h, *t << 32 | *n);
    }
    for t in &texts {
        h = mix(h, exec::hash(t.as_bytes()));
    }
    if cx.trace.is_some() {
        let s: Vec<String> = log.iter().take(200).map(|(t, n)| format!("{}x{}", t, n)).collect();
        cx.log(|| format!("schedule (thread x points): {}", s.join(" ")));
    }
    if threads > 1 {
        cx.reached(h);
    }
    sample(cx, &format!("{} threads, {} switches, texts {:?}", threads, log.len(), texts));
    let mut known: Vec<((usize, Opts, bool), String)> = Vec::new();
    for (i, k, r) in out {
        let j = if i == usize::MAX { &history[k] } else { &jobs[i][k] };
        if j.reuse.is_some() {
            cx.fault("buffer reused");
        }
        if r == "!crashed" {
            cx.fault("parse abandoned");
            continue;
        }
        let key = (j.text, j.o, j.e == Entry::Single);
        let want = match known.iter().find(|x| x.0 == key) {
            Some(x) => x.1.clone(),
            None => {
                let w = reference(&texts[j.text], &j.o, j.e);
                cx.st.add("reference parses", 1);
                known.push((key, w.clone()));
                w
            }
        };
        if r != want {
            let who = if i == usize::MAX { "history".to_string() } else { format!("thread {}", i) };
            return fail("interference", format!("{} job {}: {} on {}", who, k, exec::diff(&r, &want), show(&texts[j.text])));
        }
    }
    Ok(())
}
