//! C01: every input parses to exactly the forms the notation defines.

use kul::common::inmem;
use kul::Text as _;
use kulmc::conv::{item_m, same, clip};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::model::{self, show_item};
use kulmc::spaces::{standard, Bounds};

fn check(t: &mut Tally, s: &str) -> Verdict {
    let want = model::parse_str(s, &[]);
    let text = inmem::Text::from_str(s);
    let mut p = inmem::parser::<u32, u32>(Default::default());
    let mut it = p.parse(text.iter());
    for (k, w) in want.items.iter().enumerate() {
        let got = it.next();
        let ok = match (&got, w) {
            (Some(Ok(d)), Ok(m)) => same(m, d),
            // Which error and where is C06's subject; that it is one is the grammar's.
            (Some(Err(_)), Err(_)) => true,
            _ => false,
        };
        if !ok {
            return Err(format!(
                "item {k}: expected {}, got {}",
                clip(show_item(w)),
                got.map_or("end".into(), |g| clip(show_item(&item_m(&g))))
            ));
        }
    }
    if let Some(g) = it.next() {
        return Err(format!("expected end after {} items, got {}", want.items.len(), clip(show_item(&item_m(&g)))));
    }
    t.traces += 1;
    t.steps += want.steps;
    t.state = Some(hash64(&want.items));
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C01");
    let b = Bounds {
        base: ctx.pick(7, 10, 11),
        uni: ctx.pick(4, 6, 6),
        pump_u: ctx.pick(1, 2, 2),
        pump_v: ctx.pick(2, 3, 4),
        pump_ks: ctx.pick(&[5], &[5, 18], &[7, 40, 300]),
        deep: ctx.pick(&[3, 40], &[2, 3, 9, 40, 300], &[2, 3, 9, 17, 40, 130, 300, 1100]),
        huge: ctx.pick(&[], &[70_000], &[70_000, 200_000]),
    };
    standard(&ctx, &b, check);
    ctx.finish()
}
