#![allow(dead_code)]
extern crate alloc as alloc_crate;

mod alloc;
mod choice;
mod ctx;
mod damage;
mod dbg;
mod exec;
mod fork;
mod gen;
mod known;
mod props;
mod reserved;
mod runner;
mod sched;
mod script;
mod truth;
mod walk;
mod words;

use choice::Choices;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    exec::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let prop = |id: &str| -> &'static ctx::Prop {
        match props::PROPS.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            }
        }
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    // All parsing happens on a thread with the default stack of a spawned thread
    let small = |f: Box<dyn FnOnce() + Send>| {
        std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(3));
    };
    let code = match s(1) {
        "check" => runner::check(prop(s(2)), s(3) == "thorough", seed),
        "worker" => {
            let p = prop(s(2));
            let t = s(3) == "thorough";
            let (sd, f, st, c, se) = (n(4), n(5), n(6), n(7), n(8));
            small(Box::new(move || runner::worker(p, t, sd, f, st, c, se)));
            0
        }
        "evald" => {
            let p = prop(s(2));
            let t = s(3) == "thorough";
            small(Box::new(move || runner::evald(p, t)));
            0
        }
        "trace" => {
            let p = prop(s(2));
            let t = s(3) == "thorough";
            small(Box::new(move || runner::trace_child(p, t)));
            0
        }
        "one" => {
            let p = prop(s(2));
            let t = s(3) == "thorough";
            let (sd, i) = (n(4), n(5));
            small(Box::new(move || {
                let mut c = Choices::random(runner::seed_of(p, sd, i));
                if let Ok(f) = std::env::var("SIM_RECORD") {
                    c = c.record_to(&f);
                }
                let tr = std::env::var("SIM_TRACE").is_ok();
                let (r, _) = runner::one(p, c, t, tr);
                match r {
                    Ok(()) => println!("holds"),
                    Err(v) => println!("{}: {}", v.class, v.detail),
                }
            }));
            0
        }
        "replay" => runner::replay(s(2), props::PROPS),
        "probe" => {
            let name = s(2).to_string();
            small(Box::new(move || known::probe(&name)));
            0
        }
        "gentest" => {
            let (c, k) = (n(2).max(200), s(3).to_string());
            small(Box::new(move || gentest(c, &k)));
            0
        }
        "truthtest" => {
            let c = n(2).max(200);
            small(Box::new(move || truthtest(c)));
            0
        }
        "formtest" => {
            let c = n(2).max(200);
            small(Box::new(move || formtest(c)));
            0
        }
        "spantest" => {
            let c = n(2).max(200);
            small(Box::new(move || spantest(c)));
            0
        }
        "ids" => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check ID quick|thorough | replay FILE | one ID TIER SEED RUN");
            2
        }
    };
    std::process::exit(code);
}

/// Which generated statements does the parser not take?
fn gentest(count: u64, only: &str) {
    let mut seen = std::collections::BTreeMap::new();
    for (i, (name, dialects)) in gen::kinds().iter().enumerate() {
        if !only.is_empty() && *name != only {
            continue;
        }
        let mut bad = 0;
        let mut total = 0;
        for d in dialects.iter() {
            for s in 0..count {
                let mut c = Choices::random(s * 977 + i as u64 * 31 + *d as u64);
                let mut o = gen::Opts::choose(&mut c);
                o.dialect = *d;
                if *d == gen::PG {
                    o.warn_id = false;
                }
                let mut cnt = 0;
                let st = gen::stmt_of(&mut c, o, &mut cnt, i);
                let mut text = String::new();
                script::layout(&mut c, &st.toks, &mut text);
                total += 1;
                match exec::run(&text, &o, exec::Entry::Single) {
                    Ok(r) => {
                        let err = r.diags.iter().find(|d| d.error);
                        let v = r.stmts.first().map(|s| dbg::variant(s).to_string());
                        if err.is_some() || v.as_deref() != Some(*name) {
                            bad += 1;
                            if bad <= 3 {
                                println!("{} {:?} -> {:?}\n   {}\n   {:?}", name, o, v, text, err.map(|e| &e.dump));
                            }
                        }
                    }
                    Err(v) => {
                        bad += 1;
                        if bad <= 3 {
                            println!("{} {:?}\n  {}\n  {} {}", name, o, text, v.class, v.detail);
                        }
                    }
                }
            }
        }
        *seen.entry((*name).to_string()).or_insert((0, 0)) = (bad, total);
    }
    println!("{:?}", seen.iter().filter(|x| x.1 .0 > 0).collect::<Vec<_>>());
}

/// How do the positions of whole statements relate to their texts?
fn spantest(count: u64) {
    for (i, (name, dialects)) in gen::kinds().iter().enumerate() {
        let (mut total, mut exact, mut encl, mut within) = (0, 0, 0, 0);
        let mut ex: Vec<String> = Vec::new();
        for d in dialects.iter() {
            for s in 0..count {
                let mut c = Choices::random(s * 977 + i as u64 * 31 + *d as u64);
                let mut o = gen::Opts::choose(&mut c);
                o.dialect = *d;
                if *d == gen::PG {
                    o.warn_id = false;
                }
                let mut cnt = 0;
                let st = gen::stmt_of(&mut c, o, &mut cnt, i);
                let text = st.toks.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ");
                let mut issues = sql_parse::Issues::new(&text);
                use sql_parse::Spanned;
                let Some(r) = sql_parse::parse_statement(&text, &mut issues, &o.options()) else { continue };
                total += 1;
                let sp = r.span();
                let e = dbg::extent(&format!("{:?}", r)).unwrap_or(0..0);
                let x = sp == (0..text.len());
                let y = sp.start <= e.start && sp.end >= e.end;
                exact += x as u64;
                encl += y as u64;
                within += (e == (0..text.len())) as u64;
                if (!y || sp.start != 0 || sp.end != text.len()) && ex.len() < 4000 {
                    ex.push(format!("[{}|{}|{}] encl={} ext={}", &text[..sp.start], &text[sp.clone()], &text[sp.end..], y, e == (0..text.len())));
                }
            }
        }
        println!("{} total {} exact {} enclosing {} extent-exact {}", name, total, exact, encl, within);
        ex.sort_by_key(|s| s.len());
        for e in ex.iter().take(5) {
            println!("      {}", e);
        }
    }
}

/// Forms of statements that the generator reaches
fn formtest(count: u64) {
    fn go(v: &truth::V, m: &mut std::collections::BTreeMap<String, u64>) {
        match v {
            truth::V::Node(n, f) => {
                *m.entry(n.clone()).or_default() += 1;
                for (k, x) in f {
                    let e = match x {
                        truth::V::Node(n, _) if n == "None" => "absent",
                        truth::V::List(l) if l.is_empty() => "empty",
                        _ => "present",
                    };
                    *m.entry(format!("{}.{}={}", n, k, e)).or_default() += 1;
                    go(x, m);
                }
            }
            truth::V::List(l) | truth::V::Tuple(l) => l.iter().for_each(|x| go(x, m)),
            _ => {}
        }
    }
    let mut m = Default::default();
    for (i, (_, dialects)) in gen::kinds().iter().enumerate() {
        for d in dialects.iter() {
            for s in 0..count {
                let mut c = Choices::random(s * 977 + i as u64 * 31 + *d as u64);
                let mut o = gen::Opts::choose(&mut c);
                o.dialect = *d;
                if *d == gen::PG {
                    o.warn_id = false;
                }
                let mut cnt = 0;
                let st = gen::stmt_of(&mut c, o, &mut cnt, i);
                let mut text = String::new();
                script::layout(&mut c, &st.toks, &mut text);
                if let Ok(r) = exec::run(&text, &o, exec::Entry::Single) {
                    for d in &r.stmts {
                        go(&truth::parse(d).unwrap(), &mut m);
                    }
                }
            }
        }
    }
    for (k, n) in m {
        println!("{} {}", k, n);
    }
}

fn truthtest(count: u64) {
    let mut m: std::collections::BTreeMap<String, std::collections::BTreeMap<String, u64>> = Default::default();
    for (i, (_, dialects)) in gen::kinds().iter().enumerate() {
        for d in dialects.iter() {
            for s in 0..count {
                let mut c = Choices::random(s * 977 + i as u64 * 31 + *d as u64);
                let mut o = gen::Opts::choose(&mut c);
                o.dialect = *d;
                if *d == gen::PG {
                    o.warn_id = false;
                }
                let mut cnt = 0;
                let st = gen::stmt_of(&mut c, o, &mut cnt, i);
                let mut text = String::new();
                let mut pos = Vec::new();
                for (i, t) in st.toks.iter().enumerate() {
                    if i > 0 {
                        text.push(' ');
                    }
                    let b = text.len();
                    text.push_str(&t.text);
                    pos.push(b..text.len());
                }
                let mut issues = sql_parse::Issues::new(&text);
                let Some(r) = sql_parse::parse_statement(&text, &mut issues, &o.options()) else { continue };
                let d = format!("{:?}", r);
                let el = dbg::elems(&d);
                let mut body = false;
                for (i, t) in st.toks.iter().enumerate() {
                    if t.text == "$$" && st.kind != "Do" {
                        body = !body;
                    }
                    if body || t.cls != gen::Cls::Kw {
                        continue;
                    }
                    let show = |t: &gen::Tok| match t.cls { gen::Cls::Kw | gen::Cls::Op => t.text.to_uppercase(), c => format!("{:?}", c) };
                    let c = el.iter().any(|e| e.1.start <= pos[i].start && e.1.end >= pos[i].end);
                    let k = match t.cls { gen::Cls::Kw | gen::Cls::Op => t.text.to_uppercase(), c => format!("{:?}{}", c, t.track) };
                    let prev = if i > 0 { show(&st.toks[i - 1]) } else { "".into() };
                    let v = dbg::variant(&d);
                    *m.entry(format!("KEEP {}", k)).or_default().entry(format!("{} {} {}", c, v, prev)).or_default() += 1;
                }
                let Some(v) = truth::parse(&d) else { println!("unreadable {}", d); continue };
                walk::Walk { f: &mut |k, s, x| {
                    let d = format!("{:?}", x);
                    let e = dbg::extent(&d);
                    let w = match (s, e) {
                        (None, None) => "none",
                        (Some(a), Some(b)) if a == b => "=",
                        (Some(a), Some(b)) if a.start <= b.start && a.end >= b.end => "encloses",
                        (Some(a), Some(b)) if a.start >= b.start && a.end <= b.end => "within",
                        (None, _) => "missing",
                        (Some(a), None) if a == (0..0) => "empty",
                        _ => "other",
                    };
                    let v = dbg::variant(&d).to_string();
                    *m.entry(format!("SPAN {} {}", k, v)).or_default().entry(w.to_string()).or_default() += 1;
                } }.statement(&r);
                let mut a = truth::Agree::new(&text, &[]);
                a.check(&v);
                if let Some(b) = a.bad {
                    *m.entry(format!("BAD {}", b.split(" at ").next().unwrap_or(""))).or_default().entry(b.clone()).or_default() += 1;
                }
                truth::contexts(&v, "", &text, &mut |k, w| *m.entry(k).or_default().entry(w).or_default() += 1);
            }
        }
    }
    for (k, w) in m {
        let mut l: Vec<_> = w.iter().collect();
        l.sort_by_key(|x| std::cmp::Reverse(x.1));
        println!("{}  ({}) {:?}", k, l.len(), l.iter().take(if k.starts_with("KEEP") { 4000 } else { 8 }).collect::<Vec<_>>());
    }
}
