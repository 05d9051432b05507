//! Scripts as they arrive at the parser: statements laid out as text with the
//! position of every token.

use crate::choice::Choices;
use crate::gen::{self, Opts, Stmt, Tok};
use std::ops::Range;

#[derive(Clone, Debug)]
pub struct Item {
    pub kind: &'static str,
    pub toks: Vec<(Tok, Range<usize>)>,
    pub start: usize,
    pub body_end: usize,
    /// Position of the terminator
    pub term: Range<usize>,
    /// Inline data and the end of its end line
    pub data: Option<(Range<usize>, usize)>,
    pub compound: bool,
    pub nesting: bool,
}

impl Item {
    /// End of the item including terminator and data
    pub fn end(&self) -> usize {
        self.data.as_ref().map(|d| d.1).unwrap_or(self.term.end)
    }
}

/// Render the tokens of a statement
pub fn layout(c: &mut Choices, toks: &[Tok], out: &mut String) -> Vec<(Tok, Range<usize>)> {
    let fancy = c.chance(1, 3);
    let mut r = Vec::with_capacity(toks.len());
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            if fancy {
                if !t.glue || c.chance(1, 2) {
                    gen::space(c, out);
                }
            } else if !t.glue {
                out.push(' ');
            }
        }
        let s = out.len();
        out.push_str(&t.text);
        r.push((t.clone(), s..out.len()));
    }
    r
}

/// Append a statement with its terminator, and data if it takes any
pub fn append(c: &mut Choices, s: &Stmt, term: &str, data: Option<&str>, out: &mut String) -> Item {
    let toks = layout(c, &s.toks, out);
    let start = toks[0].1.start;
    let body_end = toks.last().unwrap().1.end;
    if term != ";" || c.chance(1, 6) {
        gen::space(c, out);
    }
    let t = out.len();
    out.push_str(term);
    let term = t..out.len();
    let data = if s.copy {
        let d = data.unwrap_or("");
        if c.chance(1, 4) {
            out.push_str(c.pick(&[" ", "\t", " \r", "  "]));
        }
        out.push('\n');
        let ds = out.len();
        out.push_str(d);
        let de = out.len();
        out.push_str("\\.\n");
        Some((ds..de, out.len()))
    } else {
        None
    };
    Item { kind: s.kind, toks, start, body_end, term, data, compound: s.compound, nesting: s.nesting() }
}

/// Inline data: complete lines, none of which is the end line
pub fn data(c: &mut Choices) -> String {
    let mut s = String::new();
    for _ in 0..c.below(5) {
        let l = *c.pick(&[
            "1\t2", "", "a;b", "\\\\.", "\\", "'", "\"`", "\\N", " \\.", "\\. ", "\\.x", "; SELECT 1;", "é\u{1F600}", "/*", "-- x", "$$", "\\\\", ".", "DELIMITER $$", "\\.\r", "\r", "\\.\\.", "\t",
        ]);
        s.push_str(l);
        s.push('\n');
    }
    s
}

pub struct Script {
    pub text: String,
    pub items: Vec<Item>,
    pub opts: Opts,
}
