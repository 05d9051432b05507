//! Numbers outside the representable range are reported.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::{Cls, Opts};
use crate::truth;

pub const PROP: Prop = Prop {
    id: "C29",
    run,
    quick: 200_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct delivered scripts",
    real: REAL,
    stub: STUB,
    assumptions: &["whole numbers below 2^32 fit every field, those from 2^64 fit none; decimal numbers are 64 bit floats"],
};

const EDGES: &[&str] = &[
    "127", "128", "255", "256", "32767", "32768", "65535", "65536", "16777216", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9007199254740993",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551626", "36893488147419103232",
    "99999999999999999999", "340282366920938463463374607431768211456", "00000000000000000000000000001", "000",
];

/// Digits lost, repeated or overwritten on the way
fn corrupt(c: &mut Choices, t: &str) -> String {
    let d: Vec<char> = t.chars().collect();
    let whole = !t.contains('.');
    match c.below(4) {
        0 if whole => c.pick(EDGES).to_string(),
        1 if d.len() > 1 => {
            // lost, a digit and any point stay
            let i = c.below(d.len());
            let r: String = d.iter().enumerate().filter(|(k, x)| *k != i || **x == '.').map(|x| *x.1).collect();
            if r.chars().any(|x| x.is_ascii_digit()) {
                r
            } else {
                t.to_string()
            }
        }
        k => {
            let a = c.below(d.len());
            let n = 1 + c.below(d.len() - a);
            let part: String = d[a..a + n].iter().filter(|x| **x != '.').collect();
            let n = if k == 2 { 1 + c.below(4) } else { 1 + c.below(330) };
            let mut r: String = d[..a].iter().collect();
            r.push_str(&part.repeat(n));
            r.extend(&d[a..]);
            r
        }
    }
}

/// What stands between the numbers of an interval in a string
const SEPARATORS: [char; 6] = [':', '!', ',', '.', '-', ' '];

fn interval(t: &gen::Tok, prev: Option<&gen::Tok>) -> bool {
    t.cls == gen::Cls::Str && t.text.starts_with('\'') && prev.is_some_and(|p| p.cls == gen::Cls::Kw && p.text.eq_ignore_ascii_case("INTERVAL"))
}

#[derive(PartialEq, Debug)]
enum Fit {
    Yes,
    Maybe,
    No,
}

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let mut m = messages(&mut cx.c, o, 1, 3, Only::Any);
    for x in &mut m {
        let mut inside = false;
        for i in 0..x.s.toks.len() {
            let t = &x.s.toks[i];
            // nothing is kept of function bodies in quotes
            inside ^= t.text == "$$" && x.s.kind != "Do";
            if !inside && interval(t, i.checked_sub(1).map(|j| &x.s.toks[j])) && cx.c.chance(1, 2) {
                // one of the numbers in a string
                let n: Vec<String> = t.text.trim_matches('\'').split_inclusive(SEPARATORS).map(|p| p.to_string()).collect();
                let k = cx.c.below(n.len());
                let mut r = String::from("'");
                for (j, p) in n.iter().enumerate() {
                    let d = p.trim_end_matches(SEPARATORS);
                    if j == k && !d.is_empty() {
                        r.push_str(&corrupt(&mut cx.c, d));
                        r.push_str(&p[d.len()..]);
                    } else {
                        r.push_str(p);
                    }
                }
                r.push('\'');
                if r != t.text {
                    cx.fault("digits damaged");
                    x.s.toks[i].text = r;
                }
                continue;
            }
            if inside || !matches!(t.cls, Cls::Int | Cls::Float) || !t.text.bytes().all(|b| b.is_ascii_digit() || b == b'.') || !cx.c.chance(1, 2) {
                continue;
            }
            let n = corrupt(&mut cx.c, &t.text);
            if n != t.text {
                cx.fault("digits damaged");
                x.s.toks[i].text = n;
            }
        }
    }
    let s = assemble(cx, o, &m, ";", true);
    cx.log(|| format!("{:?} {}", o, show(&s.text)));
    sample(cx, &s.text);
    let r = exec::run(&s.text, &o, Entry::Script)?;
    cx.meter(&r.meter);
    let g = groups(&s, &r)?;
    let found: Vec<(dbg::Elem, std::ops::Range<usize>)> = r.stmts.iter().flat_map(|d| dbg::elems(d)).collect();
    let mut numbers = 0;
    for (i, it) in s.items.iter().enumerate() {
        let want = if it.data.is_some() { 2 } else { 1 };
        ensure!(g[i].stmts.len() == want, "statement lost", "{} on {}", show(&s.text[it.start..it.body_end]), show(&s.text));
        let mut places = Vec::new();
        let mut inside = false;
        for (k, (t, p)) in it.toks.iter().enumerate() {
            inside ^= t.text == "$$" && it.kind != "Do";
            if !inside && interval(t, k.checked_sub(1).map(|j| &it.toks[j].0)) {
                // the values of the parts are compared below
                let fits = t.text.trim_matches('\'').split(SEPARATORS).all(|x| x.parse::<i64>().is_ok());
                let error = g[i].diags.iter().any(|d| d.error && d.span == *p);
                places.push(p.clone());
                numbers += 1;
                ensure!(error != fits, if error { "error for a number in range" } else { "no error for a number out of range" }, "{:?} at {:?} on {}", t.text, p, show(&s.text));
                continue;
            }
            if inside || !matches!(t.cls, Cls::Int | Cls::Float) || !t.text.bytes().all(|b| b.is_ascii_digit() || b == b'.') {
                continue;
            }
            let at = &s.text[p.clone()];
            let fit = if t.cls == Cls::Float {
                if at.parse::<f64>().is_ok_and(|v| v.is_finite()) {
                    Fit::Yes
                } else {
                    Fit::No
                }
            } else {
                let d = at.trim_start_matches('0');
                match d.parse::<u64>() {
                    Ok(v) if v <= u32::MAX as u64 => Fit::Yes,
                    Ok(_) => Fit::Maybe,
                    Err(_) if d.is_empty() => Fit::Yes,
                    Err(_) => Fit::No,
                }
            };
            numbers += 1;
            let error = g[i].diags.iter().any(|d| d.error && d.span == *p);
            places.push(p.clone());
            ensure!(!(error && fit == Fit::Yes), "error for a number in range", "{:?} on {}", at, show(&s.text));
            if !t.track || error {
                continue;
            }
            ensure!(fit != Fit::No, "no error for a number out of range", "{:?} at {:?} on {}", at, p, show(&s.text));
            let exact = found.iter().any(|(e, r)| {
                r == p
                    && match e {
                        dbg::Elem::Num(w) if t.cls == Cls::Float => w.parse::<f64>().ok() == at.parse().ok(),
                        dbg::Elem::Num(w) => w.parse::<u64>().ok() == at.parse().ok(),
                        _ => false,
                    }
            });
            ensure!(exact, "wrong value", "{:?} at {:?} on {}", at, p, show(&s.text));
        }
        for d in g[i].diags.iter().filter(|d| d.error) {
            ensure!(places.contains(&d.span), "other error", "{} on {}", d.dump, show(&s.text));
        }
    }
    // pairs of numbers and numbers in strings too
    for d in &r.stmts {
        let mut a = truth::Agree::new(&s.text, &r.diags);
        a.check(&truth::parse(d).expect("printed form"));
        if let Some(b) = a.bad {
            return fail("wrong value", format!("{} in {} on {}", b, d, show(&s.text)));
        }
    }
    cx.st.add("numbers delivered", numbers);
    cx.reached(hash(s.text.as_bytes()));
    Ok(())
}
