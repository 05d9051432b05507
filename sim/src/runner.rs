//! Coordinator: worker processes, watchdog, minimisation, replay files and
//! evidence.

use crate::choice::{mix, Choices};
use crate::ctx::{Ctx, Prop, Stats};
use crate::exec::{hash, Violation};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const STALL: Duration = Duration::from_secs(25);

pub fn seed_of(p: &Prop, seed: u64, i: u64) -> u64 {
    mix(mix(seed, hash(p.id.as_bytes())), i)
}

/// Run one simulation to its end
pub fn one(p: &Prop, c: Choices, thorough: bool, trace: bool) -> (Result<(), Violation>, Ctx) {
    let mut ctx = Ctx { c, st: Stats::default(), thorough, trace: trace.then(Vec::new), sample: None };
    let r = (p.run)(&mut ctx);
    (r, ctx)
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\x1f', " ")
}
fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some(c) => r.push(c),
                None => (),
            }
        } else {
            r.push(c)
        }
    }
    r
}
fn join(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn split(s: &str) -> Vec<u32> {
    s.split(' ').filter_map(|x| x.parse().ok()).collect()
}

/// Body of a worker process: runs from, from+step, … below `count` until the deadline
pub fn worker(p: &Prop, thorough: bool, seed: u64, from: u64, step: u64, count: u64, secs: u64) {
    let out = std::io::stdout();
    let mut all = Stats::default();
    let t0 = Instant::now();
    let mut i = from;
    let mut evals = 0u64;
    while i < count && t0.elapsed().as_secs() < secs {
        {
            let mut o = out.lock();
            let _ = o.write_all(format!("r {}\n", i).as_bytes());
            let _ = o.flush();
        }
        let (r, ctx) = one(p, Choices::random(seed_of(p, seed, i)), thorough, false);
        if let Err(v) = r {
            println!("V {}\x1f{}\x1f{}\x1f{}", i, esc(&v.class), esc(&v.detail), join(&ctx.c.rec));
            return;
        }
        for (k, v) in &ctx.st.n {
            all.add(k, *v);
        }
        if all.distinct.len() < 3_000_000 {
            all.distinct.extend(ctx.st.distinct);
        }
        if let Some(s) = ctx.sample {
            if all.samples.len() < 2 && evals > 2 {
                all.samples.push(s);
            }
        }
        evals += 1;
        i += step;
    }
    all.add("evaluations", evals);
    for (k, v) in &all.n {
        println!("C {} {}", v, k);
    }
    let mut line = String::new();
    for (n, d) in all.distinct.iter().enumerate() {
        line.push_str(&format!("{:x} ", d));
        if n % 1000 == 999 {
            println!("D {}", line);
            line.clear();
        }
    }
    println!("D {}", line);
    for s in &all.samples {
        println!("P {}", esc(s));
    }
    println!("E");
}

/// Body of an evaluation process: one choice sequence per line
pub fn evald(p: &Prop, thorough: bool) {
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        // a number of seeded runs in one process, of which the last is judged
        if let Some(h) = l.strip_prefix("H ") {
            let h: Vec<u64> = h.split(' ').filter_map(|x| x.parse().ok()).collect();
            let [seed, from, step, upto] = h[..] else { return };
            let mut i = from;
            loop {
                let (r, ctx) = one(p, Choices::random(seed_of(p, seed, i)), thorough, false);
                if let Err(v) = r {
                    println!("V\x1f{}\x1f{}\x1f{}", esc(&v.class), esc(&v.detail), join(&ctx.c.rec));
                    break;
                }
                if i >= upto {
                    println!("ok\x1f");
                    break;
                }
                i += step;
            }
            let _ = std::io::stdout().flush();
            continue;
        }
        let (r, ctx) = one(p, Choices::replay(split(&l)), thorough, false);
        match r {
            Ok(()) => println!("ok\x1f{}", join(&ctx.c.rec)),
            Err(v) => println!("V\x1f{}\x1f{}\x1f{}", esc(&v.class), esc(&v.detail), join(&ctx.c.rec)),
        }
        let _ = std::io::stdout().flush();
    }
}

fn spawn_self(args: &[String]) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped());
    if std::env::var("SIM_STDERR").is_err() {
        c.stderr(Stdio::null());
    }
    c.spawn().unwrap()
}

fn status_class(c: &mut Child) -> String {
    use std::os::unix::process::ExitStatusExt;
    match c.wait() {
        Ok(s) => match s.signal() {
            Some(11) => "abort stack overflow or memory fault (signal 11)".to_string(),
            Some(6) => "abort stack overflow or abort (signal 6)".to_string(),
            Some(n) => format!("abort signal {}", n),
            None if s.code() == Some(86) => "memory budget exhausted".to_string(),
            None => format!("abort exit {}", s.code().unwrap_or(-1)),
        },
        Err(_) => "abort".to_string(),
    }
}

/// Evaluates choice sequences in a separate process
pub struct Evaluator {
    id: String,
    thorough: bool,
    child: Option<(Child, ChildStdin, Receiver<String>)>,
}

impl Evaluator {
    pub fn new(id: &str, thorough: bool) -> Self {
        Evaluator { id: id.to_string(), thorough, child: None }
    }
    /// None when the property holds, else the class, detail and choices used
    pub fn eval(&mut self, c: &[u32]) -> Option<(String, String, Vec<u32>)> {
        self.line(&join(c), c)
    }
    /// The runs from, from+step, … upto in a process that ran nothing before
    pub fn history(&mut self, seed: u64, from: u64, step: u64, upto: u64) -> Option<(String, String, Vec<u32>)> {
        let t = self.id.clone();
        *self = Evaluator::new(&t, self.thorough);
        self.line(&format!("H {} {} {} {}", seed, from, step, upto), &[])
    }
    fn line(&mut self, line: &str, c: &[u32]) -> Option<(String, String, Vec<u32>)> {
        if self.child.is_none() {
            let mut ch = spawn_self(&["evald".into(), self.id.clone(), if self.thorough { "thorough" } else { "quick" }.into()]);
            let si = ch.stdin.take().unwrap();
            let so = ch.stdout.take().unwrap();
            let (tx, rx) = channel();
            std::thread::spawn(move || {
                for l in BufReader::new(so).lines() {
                    let Ok(l) = l else { return };
                    if tx.send(l).is_err() {
                        return;
                    }
                }
            });
            self.child = Some((ch, si, rx));
        }
        let (ch, si, rx) = self.child.as_mut().unwrap();
        let _ = writeln!(si, "{}", line);
        let _ = si.flush();
        match rx.recv_timeout(if line.starts_with("H ") { 6 * STALL } else { STALL }) {
            Ok(l) => {
                let f: Vec<&str> = l.split('\x1f').collect();
                if f[0] == "V" && f.len() >= 4 {
                    Some((unesc(f[1]), unesc(f[2]), split(f[3])))
                } else {
                    None
                }
            }
            Err(RecvTimeoutError::Timeout) => {
                let _ = ch.kill();
                let _ = ch.wait();
                self.child = None;
                Some(("hang without progress".into(), "no simulated step for 25 s".into(), c.to_vec()))
            }
            Err(RecvTimeoutError::Disconnected) => {
                let cl = status_class(ch);
                self.child = None;
                Some((cl, "process ended".into(), c.to_vec()))
            }
        }
    }
}

impl Drop for Evaluator {
    fn drop(&mut self) {
        if let Some((mut c, i, _)) = self.child.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

/// Minimise a failing choice sequence
pub fn minimise(ev: &mut Evaluator, class: &str, start: Vec<u32>, secs: u64) -> (Vec<u32>, String, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut detail = String::new();
    let mut tries = 0u64;
    let slow = class.starts_with("hang without");
    let try_ = |ev: &mut Evaluator, best: &mut Vec<u32>, detail: &mut String, cand: Vec<u32>, tries: &mut u64| -> bool {
        *tries += 1;
        if let Some((c, d, rec)) = ev.eval(&cand) {
            if c == class {
                let mut rec = rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                let key = |v: &Vec<u32>| (v.len(), v.iter().map(|x| *x as u64).sum::<u64>());
                if key(&rec) < key(best) {
                    *best = rec;
                    *detail = d;
                    return true;
                }
            }
        }
        false
    };
    let b0 = best.clone();
    if let Some((c, d, rec)) = ev.eval(&b0) {
        if c == class {
            detail = d;
            if rec.len() < best.len() {
                best = rec;
            }
        }
    }
    if slow {
        return (best, detail, tries);
    }
    'outer: loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                if t0.elapsed().as_secs() >= secs {
                    break 'outer;
                }
                let s = i.saturating_sub(size);
                let mut cand = best[..s].to_vec();
                if i <= best.len() {
                    cand.extend_from_slice(&best[i..]);
                }
                if !try_(ev, &mut best, &mut detail, cand, &mut tries) {
                    i = s;
                } else {
                    i = s.min(best.len());
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed().as_secs() >= secs {
                    break 'outer;
                }
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..e].iter_mut().for_each(|x| *x = 0);
                    try_(ev, &mut best, &mut detail, cand, &mut tries);
                }
                i += size;
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u32;
            while i < best.len() && lo < best[i] {
                if t0.elapsed().as_secs() >= secs {
                    break 'outer;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !try_(ev, &mut best, &mut detail, cand, &mut tries) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, detail, tries)
}

pub fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

struct Shared {
    stats: Stats,
    fail: Vec<(u64, String, String, Vec<u32>)>,
}

/// Read `VERIF_DIR`, the directory the check runs in
fn dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn check(p: &'static Prop, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16) as u64;
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough_s } else { 150 });
    let count: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { u64::MAX } else { p.quick });
    let sh = Arc::new(Mutex::new(Shared { stats: Stats::default(), fail: Vec::new() }));
    let stop = Arc::new(AtomicU64::new(0));
    let mut hs = Vec::new();
    for w in 0..workers {
        let sh = sh.clone();
        let stop = stop.clone();
        hs.push(std::thread::spawn(move || {
            let mut ch = spawn_self(&[
                "worker".into(),
                p.id.into(),
                if thorough { "thorough" } else { "quick" }.into(),
                seed.to_string(),
                w.to_string(),
                workers.to_string(),
                count.to_string(),
                secs.to_string(),
            ]);
            let so = ch.stdout.take().unwrap();
            let (tx, rx) = channel();
            std::thread::spawn(move || {
                for l in BufReader::new(so).lines() {
                    let Ok(l) = l else { return };
                    if tx.send(l).is_err() {
                        return;
                    }
                }
            });
            let mut cur = w;
            let mut ended = false;
            let mut last = Instant::now();
            loop {
                if stop.load(Ordering::Relaxed) != 0 {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return;
                }
                match rx.recv_timeout(Duration::from_millis(500)) {
                    Ok(l) => {
                        last = Instant::now();
                        let (k, rest) = l.split_at(l.len().min(2));
                        match k {
                            "r " => cur = rest.parse().unwrap_or(cur),
                            "V " => {
                                let f: Vec<&str> = rest.split('\x1f').collect();
                                sh.lock().unwrap().fail.push((f[0].parse().unwrap_or(cur), unesc(f[1]), unesc(f[2]), split(f[3])));
                                stop.store(1, Ordering::Relaxed);
                                let _ = ch.wait();
                                return;
                            }
                            "C " => {
                                if let Some((v, k)) = rest.split_once(' ') {
                                    sh.lock().unwrap().stats.add(k, v.parse().unwrap_or(0));
                                }
                            }
                            "D " => {
                                let mut s = sh.lock().unwrap();
                                for x in rest.split(' ') {
                                    if let Ok(v) = u64::from_str_radix(x, 16) {
                                        s.stats.distinct.insert(v);
                                    }
                                }
                            }
                            "P " => sh.lock().unwrap().stats.samples.push(unesc(rest)),
                            "E" => ended = true,
                            _ => (),
                        }
                    }
                    Err(RecvTimeoutError::Timeout) => {
                        if last.elapsed() > STALL {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            sh.lock().unwrap().fail.push((cur, "hang without progress".into(), "no simulated step for 25 s".into(), Vec::new()));
                            stop.store(1, Ordering::Relaxed);
                            return;
                        }
                    }
                    Err(RecvTimeoutError::Disconnected) => {
                        let cl = status_class(&mut ch);
                        if !ended {
                            sh.lock().unwrap().fail.push((cur, cl, "worker process ended".into(), Vec::new()));
                            stop.store(1, Ordering::Relaxed);
                        }
                        return;
                    }
                }
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let mut s = sh.lock().unwrap();
    s.fail.sort();
    let known = crate::known::run(p.id);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viol = 0;
    if let Some((i, class, detail, rec)) = s.fail.first().cloned() {
        viol = 1;
        code = 1;
        let (class, detail, rec) = if rec.is_empty() {
            match record(p, thorough, seed, i) {
                Some(rec) => (class, detail, rec),
                None => (class, detail, rec),
            }
        } else {
            (class, detail, rec)
        };
        let mut ev = Evaluator::new(p.id, thorough);
        let orig = rec.len();
        let (min, d2, tries) = minimise(&mut ev, &class, rec, if thorough { 120 } else { 30 });
        let detail = if d2.is_empty() { detail } else { d2 };
        // the replay must reproduce
        let again = ev.eval(&min);
        let mut ok = again.as_ref().is_some_and(|a| a.0 == class);
        // or it needs what the runs before it left behind in the process
        let mut hist = String::new();
        if !ok {
            let t = Instant::now();
            let mut k = 0;
            while t.elapsed().as_secs() < 120 {
                let from = i.saturating_sub(k * workers).max(i % workers);
                if ev.history(seed, from, workers, i).is_some() {
                    ok = true;
                    hist = format!("\n \"history\": \"{} {} {} {}\",", seed, from, workers, i);
                    break;
                }
                if from < workers {
                    break;
                }
                k = (k * 2).max(1);
            }
        }
        let d = format!("{}/replays", dir());
        let _ = std::fs::create_dir_all(&d);
        let path = format!("{}/{}-{:x}.json", d, p.id, hash(join(&min).as_bytes()));
        let trace = trace_of(p, thorough, &min);
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"run\": {},\n \"class\": {},\n \"detail\": {},\n \"reproduces\": {},{}\n \"choices_before\": {},\n \"minimiser_runs\": {},\n \"choices\": [{}],\n \"trace\": {}\n}}\n",
            json(p.id),
            json(if thorough { "thorough" } else { "quick" }),
            seed,
            i,
            json(&class),
            json(&detail),
            ok,
            hist,
            orig,
            tries,
            min.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            json(&trace)
        );
        let _ = std::fs::write(&path, body);
        println!("{}: {}", class, detail);
        println!("{}", trace);
        println!("seed {} run {}, {} choices minimised to {} in {} runs, replay reproduces: {}", seed, i, orig, min.len(), tries, ok);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    let total = t0.elapsed().as_secs_f64();
    let ev = s.stats.n.get("evaluations").copied().unwrap_or(0);
    let faults: Vec<String> = s.stats.n.iter().filter_map(|(k, v)| k.strip_prefix("fault.").map(|k| format!("{}: {}", json(k), v))).collect();
    let other: Vec<String> = s
        .stats
        .n
        .iter()
        .filter(|(k, _)| !k.starts_with("fault.") && !matches!(k.as_str(), "evaluations"))
        .map(|(k, v)| format!("{}: {}", json(k), v))
        .collect();
    let rate = if wall > 0.0 { ev as f64 / wall * 3600.0 } else { 0.0 };
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs_and_seeds_per_hour\": {:.0},\n  \"simulated_time\": {{\"unit\": \"parser steps (token read, inline data read, diagnostic recorded); the library has no clock\", \"steps\": {}}},\n  \"faults_injected\": {{{}}},\n  \"counters\": {{{}}},\n  \"components_real\": {},\n  \"components_stub\": {},\n  \"workers\": {},\n  \"known_findings_seen\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json(p.id),
        json(if thorough { "thorough" } else { "quick" }),
        seed,
        json(p.level),
        ev,
        s.stats.distinct.len(),
        json(p.rule),
        s.stats.samples.iter().take(3).map(|x| json(x)).collect::<Vec<_>>().join(", "),
        rate,
        s.stats.n.get("steps").copied().unwrap_or(0),
        faults.join(", "),
        other.join(", "),
        json(p.real),
        json(p.stub),
        workers,
        known.len(),
        p.assumptions.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "),
        total,
        viol
    );
    let d = format!("{}/evidence", dir());
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(format!("{}/{}.json", d, p.id), body) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    s.stats.samples.clear();
    println!("{}: {} runs, {} distinct, {:.1} s, {} violation(s)", p.id, ev, s.stats.distinct.len(), total, viol);
    code
}

/// Choices of a run that ended its process
fn record(p: &Prop, thorough: bool, seed: u64, i: u64) -> Option<Vec<u32>> {
    let path = std::env::temp_dir().join(format!("sim-rec-{}-{}", p.id, std::process::id()));
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["one", p.id, if thorough { "thorough" } else { "quick" }, &seed.to_string(), &i.to_string()])
        .env("SIM_RECORD", &path)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(_)) => break,
            _ if t.elapsed() > STALL => {
                let _ = c.kill();
                let _ = c.wait();
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
    let b = std::fs::read(&path).ok()?;
    let _ = std::fs::remove_file(&path);
    Some(b.chunks_exact(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect())
}

/// Human readable trace, made in a process of its own as it may crash
fn trace_of(p: &Prop, thorough: bool, c: &[u32]) -> String {
    let mut ch = spawn_self(&["trace".into(), p.id.into(), if thorough { "thorough" } else { "quick" }.into()]);
    let mut si = ch.stdin.take().unwrap();
    let _ = writeln!(si, "{}", join(c));
    drop(si);
    let so = ch.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                return;
            }
        }
    });
    let mut out = Vec::new();
    while let Ok(l) = rx.recv_timeout(STALL) {
        out.push(l);
    }
    let _ = ch.kill();
    let _ = ch.wait();
    out.join("\n")
}

pub fn trace_child(p: &Prop, thorough: bool) {
    let mut l = String::new();
    let _ = std::io::stdin().read_line(&mut l);
    std::env::set_var("SIM_TRACE", "1");
    let (r, ctx) = one(p, Choices::replay(split(l.trim())), thorough, true);
    let _ = ctx;
    match r {
        Ok(()) => println!("holds"),
        Err(v) => println!("{}: {}", v.class, v.detail),
    }
}

/// Replay a file; exit 1 when the violation is reproduced
pub fn replay(path: &str, props: &'static [Prop]) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let field = |k: &str| -> Option<&str> {
        let i = s.find(&format!("\"{}\": \"", k))? + k.len() + 5;
        let e = s[i..].find('"')? + i;
        Some(&s[i..e])
    };
    let Some(p) = field("property").and_then(|id| props.iter().find(|p| p.id == id)) else {
        eprintln!("unknown property");
        return 2;
    };
    let thorough = field("tier") == Some("thorough");
    let Some(i) = s.find("\"choices\": [") else { return 2 };
    let e = s[i..].find(']').unwrap() + i;
    let c: Vec<u32> = s[i + 12..e].split(',').filter_map(|x| x.trim().parse().ok()).collect();
    println!("{}", trace_of(p, thorough, &c));
    let mut ev = Evaluator::new(p.id, thorough);
    let h: Vec<u64> = field("history").map(|h| h.split(' ').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let r = match h[..] {
        [seed, from, step, upto] => ev.history(seed, from, step, upto),
        _ => ev.eval(&c),
    };
    match r {
        Some((class, detail, _)) => {
            println!("{}: {}", class, detail);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("property {} holds on this replay", p.id);
            0
        }
    }
}
