//! Style options only add warnings.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    quick: 300_000,
    thorough_s: 300,
    level: "exploration",
    rule: "distinct texts parsed under two sets of style options",
    real: REAL,
    stub: STUB,
    assumptions: &["two receivers of the same delivery differ only in their style options"],
};

fn run(cx: &mut Ctx) -> Check {
    let valid = cx.c.chance(1, 2);
    let mut o = if valid { Opts::choose(&mut cx.c) } else { Opts::choose_any(&mut cx.c) };
    if !valid {
        o.warn_id = false;
    }
    let text = if valid {
        let m = messages(&mut cx.c, o, 1, 4, Only::Any);
        let m = deliver(cx, m);
        assemble(cx, o, &m, ";", true).text
    } else if cx.c.chance(1, 2) {
        wreck(cx, o)
    } else {
        mixed(cx, o, 1, 4).text
    };
    let e = if cx.c.chance(1, 4) { Entry::Single } else { Entry::Script };
    let plain = Opts { warn_id: false, warn_kw: false, ..o };
    let style = match cx.c.below(3) {
        0 => Opts { warn_id: true, ..plain },
        1 => Opts { warn_kw: true, ..plain },
        _ => Opts { warn_id: true, warn_kw: true, ..plain },
    };
    cx.log(|| format!("{:?} {:?} {}", e, style, show(&text)));
    sample(cx, &text);
    let a = exec::run(&text, &plain, e)?;
    let b = exec::run(&text, &style, e)?;
    cx.meter(&a.meter);
    cx.meter(&b.meter);
    ensure!(a.stmts.len() == b.stmts.len(), "other number of statements", "{} and {} on {}", a.stmts.len(), b.stmts.len(), show(&text));
    for (x, y) in a.stmts.iter().zip(&b.stmts) {
        ensure!(x == y, "other statement", "{} on {}", diff(x, y), show(&text));
    }
    let mut rest = a.diags.iter().peekable();
    let mut added = 0;
    for d in &b.diags {
        if rest.peek().is_some_and(|r| *r == d) {
            rest.next();
            continue;
        }
        added += 1;
        ensure!(!d.error, "error for style", "{} on {}", d.dump, show(&text));
        let at = text.get(d.span.clone()).unwrap_or("");
        // a bare word, and without the option for names one in lower case
        let word = at.starts_with(|c: char| c.is_alphabetic() || c == '_') && at.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '$');
        ensure!(word, "warning about no word", "{} at {:?} on {}", d.dump, at, show(&text));
        ensure!(style.warn_id || at.chars().any(|c| c.is_ascii_lowercase()), "warning about capitals", "{} at {:?} on {}", d.dump, at, show(&text));
    }
    ensure!(rest.peek().is_none(), "diagnostic suppressed", "{} on {}", rest.peek().unwrap().dump, show(&text));
    if style.warn_id {
        let mut names = 0;
        for (n, r) in b.stmts.iter().flat_map(|d| dbg::elems(d)) {
            let dbg::Elem::Name(n) = n else { continue };
            let at = text.get(r.clone()).unwrap_or("");
            let bare = !at.is_empty() && at == n;
            names += 1;
            let mut here = b.diags.iter().filter(|d| d.span == r);
            if bare {
                ensure!(here.next().is_some(), "no warning for a bare name", "{:?} at {:?} on {}", at, r, show(&text));
            } else {
                ensure!(here.all(|d| d.error), "warning for a quoted name", "{:?} at {:?} on {}", at, r, show(&text));
            }
        }
        cx.st.add("names looked at", names);
    }
    cx.st.add("warnings added", added);
    cx.reached(hash(text.as_bytes()));
    Ok(())
}
