//! Damage stays inside the damaged statement.

use super::*;
use crate::ensure;
use crate::exec::{self, hash, Check, Entry};
use crate::gen::Opts;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 350_000,
    thorough_s: 600,
    level: "exploration",
    rule: "distinct damaged scripts",
    real: REAL,
    stub: STUB,
    assumptions: &["damage affects statements that hold no nested statement lists, quoted bodies or inline data; whole quoted words are lost, repeated or moved but their quotes stay paired"],
};

fn run(cx: &mut Ctx) -> Check {
    let o = Opts::choose(&mut cx.c);
    let mut n = 0;
    let k = cx.c.range(2, 5);
    let mut m: Vec<Msg> = Vec::new();
    // the first one is flat so that there is something to damage
    for i in 0..k {
        let only = if i == 0 || cx.c.chance(1, 2) { Only::Flat } else { Only::Any };
        m.push(message(&mut cx.c, o, &mut n, only, i));
    }
    let r = cx.c.below(k);
    m.rotate_left(r);
    let flats: Vec<usize> = (0..m.len()).filter(|i| flat(&m[*i])).collect();
    if flats.is_empty() {
        return Ok(());
    }
    let sure = flats[cx.c.below(flats.len())];
    // the same layout for what is not damaged
    let mut a = Script { text: String::new(), items: Vec::new(), opts: o };
    let mut b = Script { text: String::new(), items: Vec::new(), opts: o };
    let mut hurt = vec![false; m.len()];
    for i in 0..m.len() {
        let mut gap = String::new();
        let g = cx.c.small(2);
        for _ in 0..g {
            gen::keepalive(&mut cx.c, &mut gap, ";");
        }
        a.text.push_str(&gap);
        b.text.push_str(&gap);
        let before = a.text.len();
        let it = place(&mut cx.c, &m[i], ";", &mut a.text);
        a.items.push(it.clone());
        if i == sure || (flat(&m[i]) && cx.c.chance(1, 4)) {
            hurt[i] = true;
            damage_words(cx, &mut m[i]);
            let it = place(&mut cx.c, &m[i], ";", &mut b.text);
            b.items.push(it);
        } else {
            let d = b.text.len() as i64 - before as i64;
            let t = a.text[before..].to_string();
            b.text.push_str(&t);
            let mv = |x: usize| (x as i64 + d) as usize;
            let mut y = it;
            y.start = mv(y.start);
            y.body_end = mv(y.body_end);
            y.term = mv(y.term.start)..mv(y.term.end);
            y.data = y.data.map(|(r, e)| (mv(r.start)..mv(r.end), mv(e)));
            b.items.push(y);
        }
    }
    cx.log(|| format!("{:?}\nundamaged {}\ndamaged   {}", o, show(&a.text), show(&b.text)));
    sample(cx, &b.text);
    let ra = exec::run(&a.text, &o, Entry::Script)?;
    let rb = exec::run(&b.text, &o, Entry::Script)?;
    cx.meter(&ra.meter);
    cx.meter(&rb.meter);
    let ga = groups(&a, &ra)?;
    let gb = groups(&b, &rb)?;
    let dollar = o.args == 3;
    let mut delta = Some(0);
    for i in 0..m.len() {
        let base = b.items[i].start as i64 - a.items[i].start as i64;
        if hurt[i] {
            delta = None;
            let end = b.items[i].term.end;
            for s in &gb[i].stmts {
                ensure!(dbg::extent(s).is_some_and(|e| e.end <= end), "statement beyond terminator", "{} on {}", s, show(&b.text));
            }
            for d in &gb[i].diags {
                ensure!(d.span.end <= end, "diagnostic beyond terminator", "{} on {}", d.dump, show(&b.text));
            }
            continue;
        }
        if let Err(d) = same_group(&gb[i], &ga[i], base, &mut delta, dollar) {
            return fail("damage spread", format!("to {}: {}, damaged script {}", show(&b.text[b.items[i].start..b.items[i].end()]), d, show(&b.text)));
        }
    }
    cx.reached(hash(b.text.as_bytes()));
    Ok(())
}
