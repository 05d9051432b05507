//! Reads the printed form of returned statements and diagnostics: all
//! positions, names, strings, numbers and placeholders in it.

use std::ops::Range;

#[derive(Clone, Debug, PartialEq)]
pub enum Elem {
    Name(String),
    Str(String),
    Num(String),
    Data(String),
    /// Two numbers with one position
    Pair(u64, u64),
    /// Positional placeholder
    Arg(usize),
    /// List placeholder
    List(usize),
    /// Some other position
    Span,
}

#[derive(Clone, Debug)]
enum T<'a> {
    Word(&'a str),
    Num(&'a str),
    Str(String),
    Range(usize, usize),
    P(u8),
}

fn tokens(s: &str) -> Vec<(T<'_>, Range<usize>)> {
    let b = s.as_bytes();
    let mut r = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let st = i;
        match b[i] {
            b' ' | b'\n' => i += 1,
            b'"' => {
                let mut v = String::new();
                i += 1;
                let mut it = s[i..].char_indices();
                let mut end = s.len();
                while let Some((o, c)) = it.next() {
                    match c {
                        '"' => {
                            end = i + o + 1;
                            break;
                        }
                        '\\' => match it.next().map(|x| x.1) {
                            Some('n') => v.push('\n'),
                            Some('r') => v.push('\r'),
                            Some('t') => v.push('\t'),
                            Some('0') => v.push('\0'),
                            Some('u') => {
                                it.next();
                                let mut n = 0u32;
                                for (_, c) in it.by_ref() {
                                    if c == '}' {
                                        break;
                                    }
                                    n = n * 16 + c.to_digit(16).unwrap_or(0);
                                }
                                v.push(char::from_u32(n).unwrap_or('?'));
                            }
                            Some(c) => v.push(c),
                            None => (),
                        },
                        c => v.push(c),
                    }
                }
                i = end;
                r.push((T::Str(v), st..i));
            }
            b'0'..=b'9' => {
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                if b[i..].starts_with(b"..") && b.get(i + 2).is_some_and(|c| c.is_ascii_digit()) {
                    let a = s[st..i].parse().unwrap_or(usize::MAX);
                    i += 2;
                    let e = i;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                    let z = s[e..i].parse().unwrap_or(usize::MAX);
                    r.push((T::Range(a, z), st..i));
                } else {
                    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || (b[i] == b'-' && b[i - 1] == b'e')) {
                        i += 1;
                    }
                    r.push((T::Num(&s[st..i]), st..i));
                }
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                r.push((T::Word(&s[st..i]), st..i));
            }
            c => {
                i += 1;
                r.push((T::P(c), st..i));
            }
        }
    }
    r
}

/// Everything with a position in the printed form
pub fn elems(s: &str) -> Vec<(Elem, Range<usize>)> {
    let t = tokens(s);
    let mut r = Vec::new();
    for i in 0..t.len() {
        let T::Range(a, b) = t[i].0 else { continue };
        let at = |k: usize| if i >= k { Some(&t[i - k].0) } else { None };
        // Identifier { value : "x" , span : a..b   => offsets 8 .. 0
        let span_field = matches!((at(2), at(1)), (Some(T::Word("span")), Some(T::P(b':'))));
        if span_field {
            if let (Some(T::Word(w)), Some(T::P(b'{')), Some(T::Word("value")), Some(T::P(b':')), Some(T::Str(v)), Some(T::P(b','))) =
                (at(8), at(7), at(6), at(5), at(4), at(3))
            {
                match *w {
                    "Identifier" => {
                        r.push((Elem::Name(v.clone()), a..b));
                        continue;
                    }
                    "SString" => {
                        r.push((Elem::Str(v.clone()), a..b));
                        continue;
                    }
                    _ => (),
                }
            }
        }
        if let (Some(T::P(b'(')), Some(v), Some(T::P(b','))) = (at(3), at(2), at(1)) {
            match v {
                T::Num(n) => {
                    if let (Some(T::Word(w @ ("Arg" | "ListHack"))), Some(T::P(b'('))) = (at(5), at(4)) {
                        let n = n.parse().unwrap_or(usize::MAX);
                        r.push((if *w == "Arg" { Elem::Arg(n) } else { Elem::List(n) }, a..b));
                    } else {
                        r.push((Elem::Num(n.to_string()), a..b));
                    }
                    continue;
                }
                T::Str(v) if matches!(at(4), Some(T::Word("Stdin"))) => {
                    r.push((Elem::Data(v.clone()), a..b));
                    continue;
                }
                _ => (),
            }
        }
        if let (Some(T::Word("Numeric")), Some(T::P(b'(')), Some(T::Num(x)), Some(T::P(b',')), Some(T::Num(y)), Some(T::P(b','))) = (at(6), at(5), at(4), at(3), at(2), at(1)) {
            r.push((Elem::Pair(x.parse().unwrap_or(u64::MAX), y.parse().unwrap_or(u64::MAX)), a..b));
            continue;
        }
        r.push((Elem::Span, a..b));
    }
    r
}

/// The printed form with all positions moved back by `base`, and running
/// placeholder numbers by `args`. With `dollar` only list placeholders are
/// numbered by a running count.
pub fn shift(s: &str, base: i64, args: i64, dollar: bool) -> String {
    let t = tokens(s);
    let mut out = String::with_capacity(s.len());
    let mut last = 0;
    for i in 0..t.len() {
        match &t[i].0 {
            T::Range(a, b) => {
                out.push_str(&s[last..t[i].1.start]);
                last = t[i].1.end;
                if (*a, *b) == (0, 0) {
                    out.push_str("0..0");
                } else {
                    out.push_str(&format!("{}..{}", *a as i64 - base, *b as i64 - base));
                }
            }
            T::Num(n) if args != 0 && i >= 3 => {
                if let (T::Word(w @ ("Arg" | "ListHack")), T::P(b'('), T::P(b'(')) = (&t[i - 3].0, &t[i - 2].0, &t[i - 1].0) {
                    if dollar && *w == "Arg" {
                        continue;
                    }
                    if let Ok(v) = n.parse::<i64>() {
                        out.push_str(&s[last..t[i].1.start]);
                        last = t[i].1.end;
                        out.push_str(&(v - args).to_string());
                    }
                }
            }
            _ => (),
        }
    }
    out.push_str(&s[last..]);
    out
}

/// The smallest and largest position in the printed form
pub fn extent(s: &str) -> Option<Range<usize>> {
    let mut r: Option<Range<usize>> = None;
    for (t, _) in tokens(s) {
        if let T::Range(a, b) = t {
            if (a, b) == (0, 0) {
                continue;
            }
            r = Some(match r {
                None => a..b,
                Some(r) => r.start.min(a)..r.end.max(b),
            });
        }
    }
    r
}

/// Variant name of a printed statement
pub fn variant(s: &str) -> &str {
    let e = s.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(s.len());
    &s[..e]
}

/// Running placeholder numbers in order of appearance
pub fn running(s: &str, dollar: bool) -> Vec<usize> {
    elems(s)
        .iter()
        .filter_map(|e| match e.0 {
            Elem::Arg(n) if !dollar => Some(n),
            Elem::List(n) => Some(n),
            _ => None,
        })
        .collect()
}

/// The printed form without positions, strings and numbers
pub fn skeleton(s: &str) -> String {
    let mut r = String::new();
    for (t, _) in tokens(s) {
        match t {
            T::Word(w) => {
                r.push_str(w);
                r.push(' ');
            }
            T::P(c) => r.push(c as char),
            T::Num(_) => r.push('n'),
            T::Str(_) => r.push('s'),
            T::Range(..) => r.push('r'),
        }
    }
    r
}

/// The printed form with each position as `f` says and without excerpts
pub fn places(s: &str, f: impl Fn(Range<usize>) -> String) -> String {
    let t = tokens(s);
    let mut out = String::with_capacity(s.len());
    let mut last = 0;
    for i in 0..t.len() {
        match &t[i].0 {
            T::Range(a, b) if (*a, *b) != (0, 0) => {
                out.push_str(&s[last..t[i].1.start]);
                out.push_str(&f(*a..*b));
                last = t[i].1.end;
            }
            T::Str(_) if i >= 2 && matches!(t[i - 2].0, T::Word("sql_segment")) => {
                out.push_str(&s[last..t[i].1.start]);
                last = t[i].1.end;
            }
            _ => (),
        }
    }
    out.push_str(&s[last..]);
    out
}
