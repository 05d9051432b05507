//! Faults of the delivery path below the level of whole messages.

use crate::choice::Choices;
use crate::gen::{Cls, Tok, Val};
use crate::words::{CORE, WORDS};

pub fn tok(text: &str) -> Tok {
    Tok { text: text.to_string(), cls: Cls::Word, glue: false, track: false, val: Val::None }
}

const OPS: &[&str] = &[
    "(", ")", ",", ".", "=", "<", ">", "<=", "<>", "+", "-", "*", "/", "&", "|", "&&", "||", "!", "@", "?", "%s", "%d", "$1", "$3", "[", "]", "{", "}", "~", "^", ":", "::", "=>",
    "<<", ">>", "<=>", "\\", "!!", "#", "@@global", "@@session", "@@x", "%", "$", "1", "0", "12345678901234567890123", "1.5", ".5", "9.", "'s'", "\"d\"", "`b`", "a1", "x", "b2", "é", "''",
];

/// A word or symbol that opens no statement list and is no terminator
pub fn foreign(c: &mut Choices) -> Tok {
    match c.below(4) {
        0 => tok(OPS[c.below(OPS.len())]),
        1 | 2 => {
            let w = CORE[c.below(CORE.len())];
            if matches!(w, "BEGIN" | "IF" | "CASE" | "DO" | "COPY" | "DELIMITER" | "TRIGGER" | "FUNCTION") {
                return tok("NULL");
            }
            tok(w)
        }
        _ => {
            let w = WORDS[c.below(WORDS.len())];
            if matches!(w, "BEGIN" | "IF" | "CASE" | "DO" | "COPY" | "DELIMITER" | "TRIGGER" | "FUNCTION") {
                return tok("ABS");
            }
            tok(w)
        }
    }
}

/// Anything that can be written
pub fn any(c: &mut Choices) -> Tok {
    match c.below(6) {
        0 => tok(OPS[c.below(OPS.len())]),
        1 | 2 | 3 => tok(CORE[c.below(CORE.len())]),
        4 => tok(WORDS[c.below(WORDS.len())]),
        _ => tok(*c.pick(&[
            ";", "$$", "DELIMITER $$", "DELIMITER ;", "'", "\"", "`", "--", "/*", "*/", "//", "\n", "\n\\.\n", "\0", "\u{1F600}", "\u{FFFD}", "x'00'", "X'", "$99999999999999999999", "99999999999999999999999", "1e5", "`é`", "'\\",
            "\\'", "0x1F", "b'1'", "COPY t (a) FROM STDIN;", "\u{feff}", "\r", "\u{a0}",
        ])),
    }
}

/// Lose, repeat, swap or replace words; counts what was done
pub fn words(c: &mut Choices, toks: &mut Vec<Tok>, n: usize, foreign: fn(&mut Choices) -> Tok, mut did: impl FnMut(&'static str)) {
    for _ in 0..n {
        if toks.is_empty() {
            return;
        }
        let i = c.below(toks.len());
        match c.below(13) {
            0 | 7 => {
                toks.remove(i);
                did("word lost");
            }
            1 | 8 => {
                let t = toks[i].clone();
                toks.insert(i, t);
                did("word duplicated");
            }
            6 => {
                // stuttering
                let t = if c.chance(1, 2) { tok(*c.pick(&["(", "(", "[", "{", "+"])) } else { toks[i].clone() };
                let k = 2 + c.below(8);
                toks.splice(i..i, std::iter::repeat(t).take(k));
                did("word repeated");
            }
            2 | 9 => {
                let j = c.below(toks.len());
                toks.swap(i, j);
                did("words swapped");
            }
            3 | 10 => {
                toks[i] = foreign(c);
                did("word replaced");
            }
            4 | 11 => {
                let t = foreign(c);
                toks.insert(i, t);
                did("word inserted");
            }
            _ => {
                let k = (1 + c.below(5)).min(toks.len() - i);
                toks.drain(i..i + k);
                did("words lost");
            }
        }
    }
}

/// Lay out damaged words, always apart from each other
pub fn join(toks: &[Tok]) -> String {
    toks.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ")
}

/// The same with gaps of any kind
pub fn spread(c: &mut Choices, toks: &[Tok]) -> String {
    if !c.chance(1, 3) {
        return join(toks);
    }
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            crate::gen::space(c, &mut s);
        }
        s.push_str(&t.text);
    }
    s
}

fn boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Corrupt bytes of a text; the receiver replaces what is no longer UTF-8
pub fn bytes(c: &mut Choices, s: &str, n: usize, mut did: impl FnMut(&'static str)) -> String {
    let mut b = s.as_bytes().to_vec();
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let i = c.below(b.len());
        match c.below(8) {
            0 => {
                b[i] ^= 1 << c.below(8);
                did("bit flipped");
            }
            1 => {
                b[i] = *c.pick(b"'\"`;()\\\n$-/*.,@x0 {[&");
                did("byte replaced");
            }
            2 => {
                let k = (1 + c.below(20)).min(b.len() - i);
                b.drain(i..i + k);
                did("bytes lost");
            }
            3 => {
                let k = (1 + c.below(20)).min(b.len() - i);
                let x = b[i..i + k].to_vec();
                let j = c.below(b.len() + 1);
                b.splice(j..j, x);
                did("bytes duplicated");
            }
            4 => {
                b.truncate(i);
                did("tail torn off");
            }
            5 => {
                b.drain(..i);
                did("head torn off");
            }
            6 => {
                let t = any(c).text;
                b.splice(i..i, t.bytes());
                did("foreign text inserted");
            }
            _ => {
                let x = b.split_off(i);
                let mut y = x;
                y.extend_from_slice(&b);
                b = y;
                did("parts reordered");
            }
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

/// Cut a text at any byte. A torn character is dropped or replaced.
pub fn tear(c: &mut Choices, s: &str, at: usize) -> String {
    if s.is_char_boundary(at) {
        return s[..at].to_string();
    }
    if c.chance(1, 2) {
        String::from_utf8_lossy(&s.as_bytes()[..at]).into_owned()
    } else {
        s[..boundary(s, at)].to_string()
    }
}
