//! C17: the core parses without any heap allocation.

use kul::{Combiner, Datum, Error, Text, TextConcat};
use kul_core::premade::inmem as core_inmem;
use kulmc::conv::{items_diff, to_m, err_m};
use kulmc::counting::{calls, Counting};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::{chain, cut, from_m, posstrs};
use kulmc::model::{self, mtext, Effect, Item, Kind, Macro, M};
use kulmc::spaces::{inputs_v, lengths_v, nested_v, pumped_v, slots_v, sv, wide_by, BASE, SLOTS, UNI};
use kulmc::tables::{self, mac};
use kulmc::words::strings;
use std::hash::{Hash, Hasher};

#[global_allocator]
static A: Counting = Counting;

type Da<'i, 'a> = core_inmem::DatumAllocator<'i, 'a, u32>;
type Dt<'i, 'a> = core_inmem::DatumType<'i, 'a, u32>;
type Tx<'i, 'a> = core_inmem::Text<'i, 'a, u32>;
type Er<'i> = Error<kul::text::chunk::StrPos<'i>, u32>;

/// A hasher that only adds up.
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}

/// Number of datums below this one, links of texts included.
fn below(d: &Dt<'_, '_>) -> usize {
    let mut n = 0;
    let mut cur = d;
    loop {
        match cur {
            Datum::Text(t) => return n + links(t),
            Datum::Combination { operator, operands } => {
                n += 2 + below(operator);
                cur = operands;
            }
            Datum::List { elem, next } => {
                n += 2 + below(elem);
                cur = next;
            }
            _ => return n,
        }
    }
}
fn links(t: &Tx<'_, '_>) -> usize {
    t.iter_chunks().count() - 1
}

/// Everything one can do with a text.
fn use_text(t: &Tx<'_, '_>) -> u64 {
    let mut buf = [0u8; 64];
    let a = match t.encode_utf8(&mut buf) {
        Ok(s) | Err(s) => s.len(),
    };
    let mut none = [0u8; 0];
    let b = t.encode_utf8(&mut none).is_ok() as usize;
    let c = t.iter().map(|i| i.pos.char_pos + i.pos.byte_pos).sum::<usize>();
    let e = t.iter_chunks().filter(|c| !kul::TextBase::is_empty(*c)).count();
    let mut h = Sum(0);
    Hash::hash(t, &mut h);
    (a + b + c + e + t.chars().count() + kul::TextBase::is_empty(t) as usize) as u64 ^ h.finish()
}
fn use_datum(d: &Dt<'_, '_>) -> u64 {
    let mut n = 0u64;
    let mut cur = d;
    loop {
        match cur {
            Datum::Text(t) => return n ^ use_text(t),
            Datum::Combination { operator: l, operands: r } | Datum::List { elem: l, next: r } => {
                n = n.wrapping_mul(7) ^ use_datum(l);
                cur = r;
            }
            _ => return n,
        }
    }
}

/// Macros that do not allocate: for each of two kinds, each effect as a plain function.
fn effect<'i, 'a>(e: Effect, head: Dt<'i, 'a>, operands: Dt<'i, 'a>, da: &mut Da<'i, 'a>) -> Result<Option<Dt<'i, 'a>>, Er<'i>> {
    use kul::parser::DatumAllocator;
    Ok(Some(match e {
        Effect::Operands => operands,
        Effect::Head => head,
        Effect::Remove => return Ok(None),
        Effect::Fail(n) => return Err(Error::FailedCombiner(n)),
        Effect::Const(n) => Datum::Extra(n),
        Effect::Wrap => Datum::Combination { operator: da.new_datum(head)?, operands: da.new_datum(operands)? },
        _ => unreachable!(),
    }))
}

struct Out {
    calls: u64,
    items: usize,
    used: usize,
    forms: usize,
    ok: bool,
    sum: u64,
}

/// Parse and use the results, counting requests for heap memory.  At most
/// `take` items are asked for.  What was parsed is reported outside the count.
fn once(s: &str, pieces: &[&str], macros: &[Macro], slots: usize, conv: bool, take: usize, mut see: impl FnMut(Item)) -> Result<Out, String> {
    let mut keys: Vec<_> = (0..64).map(|_| Datum::EmptyNest).collect();
    let mut mem: Vec<_> = (0..slots).map(|_| Datum::EmptyNest).collect();
    let mut src: Vec<_> = (0..pieces.len() + 1).map(|_| Datum::EmptyNest).collect();
    let mut spare: Vec<_> = (0..8).map(|_| Datum::EmptyNest).collect();
    let ops: Vec<Box<kul::combiner::OpFn<Da<'_, '_>, u32>>> = macros
        .iter()
        .map(|m| {
            let e = m.effect;
            let f: Box<kul::combiner::OpFn<Da<'_, '_>, u32>> = Box::new(move |h, t, da| effect(e, h, Datum::Text(t), da));
            f
        })
        .collect();
    let aps: Vec<Box<kul::combiner::ApFn<Da<'_, '_>, u32>>> = macros
        .iter()
        .map(|m| {
            let e = m.effect;
            let f: Box<kul::combiner::ApFn<Da<'_, '_>, u32>> = Box::new(move |h, l, da| effect(e, h, l, da));
            f
        })
        .collect();
    let mut key_alloc = Da::new(&mut keys);
    let pairs: Vec<core_inmem::BindingsPair<'_, '_, '_, u32, u32>> = macros
        .iter()
        .enumerate()
        .map(|(id, m)| {
            (
                from_m(&m.key, &mut key_alloc).unwrap(),
                match m.kind {
                    Kind::Operative => Combiner::Operative(&*ops[id]),
                    Kind::Applicative => Combiner::Applicative(&*aps[id]),
                },
            )
        })
        .collect();
    let chunks = posstrs(s, pieces);
    let mut src_alloc = Da::new(&mut src);
    let text: Tx<'_, '_> = chain(chunks, &mut src_alloc);
    let mut o = Out { calls: 0, items: 0, used: 0, forms: 0, ok: true, sum: 0 };
    let mut last: Option<Dt<'_, '_>> = None;

    let mut mark = calls();
    let mut p = core_inmem::parser(&mut mem[..], &pairs[..]);
    macro_rules! each {
        ($r:expr) => {{
            o.calls += calls() - mark;
            match &$r {
                Ok(d) => see(Ok(to_m(d))),
                Err(e) => see(Err(err_m(e))),
            }
            mark = calls();
            o.items += 1;
            match $r {
                Ok(d) => {
                    o.forms += below(&d);
                    o.sum = o.sum.wrapping_mul(3) ^ use_datum(&d);
                    o.sum ^= (d == d) as u64;
                    if let Some(l) = &last {
                        o.sum ^= (*l == d) as u64;
                    }
                    last = Some(d);
                }
                Err(e) => {
                    o.ok = false;
                    o.sum ^= (e == e) as u64;
                }
            }
            if o.items > s.len() + 2 {
                return Err("does not end".into());
            }
        }};
    }
    if conv {
        for r in core_inmem::parse_text_with(&text, &mut p).take(take) {
            each!(r);
        }
    } else {
        for r in p.parse(text.iter()).take(take) {
            each!(r);
        }
    }
    // Concatenation by hand, also where it fails for want of slots.
    let mut more = Da::new(&mut spare);
    if let Some(Datum::Text(t)) = last {
        let mut t = t;
        for i in 0..10 {
            match t.concat(Tx::from_str(s), &mut more) {
                Ok(x) => {
                    t = x;
                    o.sum ^= use_text(&t);
                }
                Err(_) => {
                    o.sum ^= i;
                    break;
                }
            }
        }
    }
    let left = p.allocator.unused().map_or(0, |u| u.len());
    o.calls += calls() - mark;
    o.used = slots - left;
    Ok(o)
}

fn check(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro], slots: usize) -> Verdict {
    let n = s.chars().count();
    for conv in [false, true] {
        let mut items = vec![];
        let o = once(s, pieces, macros, slots, conv, usize::MAX, |i| items.push(i))?;
        t.traces += 1;
        t.steps += n as u64;
        if o.calls > 0 {
            return Err(format!("{} heap requests (slots {slots}, convenience {conv})", o.calls));
        }
        t.state = Some(hash64(&(&items, o.used, o.sum)));
        if macros.is_empty() {
            if o.ok && o.used != o.forms {
                return Err(format!("{} slots used for forms consisting of {} datums below the top", o.used, o.forms));
            }
            // Enough slots for what is needed: no failure for want of them.
            if slots > o.used && items.contains(&Err(model::MErr::Alloc)) {
                return Err(format!("allocation failed with {} slots left", slots - o.used));
            }
            if !conv && slots >= 4 * n {
                let want = model::parse_str(s, &[]);
                if let Some(m) = items_diff(&want.items, &items, true) {
                    return Err(m);
                }
                // After each item, only what was yielded occupies slots.
                if n <= 8 {
                    for k in 0..items.len() {
                        let o = once(s, pieces, macros, slots, conv, k, |_| {})?;
                        if !o.ok {
                            break;
                        }
                        if o.calls > 0 {
                            return Err(format!("{} heap requests for the first {k} items", o.calls));
                        }
                        if o.used != o.forms {
                            return Err(format!("{} slots used after {k} items consisting of {} datums below the top", o.used, o.forms));
                        }
                        t.traces += 1;
                    }
                }
            }
            // Exactly that many slots suffice.
            if o.ok && slots != o.forms && n <= 64 {
                let mut again = vec![];
                let x = once(s, pieces, macros, o.forms, conv, usize::MAX, |i| again.push(i))?;
                t.traces += 1;
                if x.calls > 0 {
                    return Err(format!("{} heap requests with exactly {} slots", x.calls, o.forms));
                }
                if let Some(m) = items_diff(&items, &again, true) {
                    return Err(format!("with exactly {} slots: {m}", o.forms));
                }
            }
        }
    }
    Ok(())
}

fn all(t: &mut Tally, s: &str, macros: &[Macro], cuts: bool) -> Verdict {
    let n = s.chars().count();
    check(t, s, &[s], macros, 4 * n + 4)?;
    if cuts {
        for mask in 1..1u64 << n.saturating_sub(1) {
            let p = cut(s, mask);
            check(t, s, &p, macros, 4 * n + 4).map_err(|m| format!("{m} (pieces {p:?})"))?;
        }
        // Every shortage.
        for k in 0..2 * n {
            check(t, s, &[s], macros, k).map_err(|m| format!("{m} (with {k} slots)"))?;
        }
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C17");
    let none: Vec<Macro> = vec![];
    let f0 = |t: &mut Tally, s: &str, _v: usize| all(t, s, &none, true);
    inputs_v(&ctx, "cuts", BASE, ctx.pick(4, 6, 7), 1, f0);
    inputs_v(&ctx, "short", BASE, ctx.pick(5, 8, 9), 1, |t, s, _| all(t, s, &none, false));
    inputs_v(&ctx, "unicode", UNI, ctx.pick(2, 4, 5), 1, |t, s, _| all(t, s, &none, false));
    slots_v(&ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 1, |t, s, _| all(t, s, &none, false));
    // Macros, errors and shortages.
    let mut tabs = tables::few();
    tabs.push(vec![mac(M::EmptyNest, Kind::Applicative, Effect::Wrap), mac(mtext("p"), Kind::Operative, Effect::Wrap)]);
    inputs_v(&ctx, "macros", &["{", "}", "\\", " ", "o", "p"], ctx.pick(3, 5, 6), tabs.len(), |t, s, v| all(t, s, &tabs[v], s.len() <= 4));
    let toks = ["{o ", "{p ", "{", "}", "x", "\\}"];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(3, 5, 7), tabs.len(), |t, s, v| all(t, s, &tabs[v], false));
    // Size.
    let us = strings(&["{", "a", "\\}"], 0, 1);
    let vs = strings(&["{", "}", "\\", " ", "a", "λ"], 1, ctx.pick(2, 3, 3));
    let ks: &[usize] = ctx.pick(&[9], &[9, 60], &[9, 60, 300]);
    pumped_v(&ctx, "pumped", &us, &vs, &us, ks, 64, ctx.threads, 2, |t, s, v| all(t, s, &tabs[v], false));
    let open = sv(&["{", "{a ", "{{} ", "{a b{c}", "{p "]);
    let ks: &[usize] = ctx.pick(&[9], &[9, 100, 300], &[9, 100, 300, 900]);
    nested_v(&ctx, "nested", &sv(&["", "x"]), &open, &sv(&["", "b"]), &sv(&["}", " y}"]), &sv(&["", "}z"]), ks, 256, ctx.threads, 3, |t, s, v| all(t, s, &tabs[v], false));
    let huge: &[usize] = ctx.pick(&[], &[20_000], &[70_000]);
    pumped_v(&ctx, "huge", &sv(&["", "{a "]), &sv(&["a", "{}", "{a}", "b{c d}"]), &sv(&["", "}"]), huge, 256, ctx.threads, 1, |t, s, v| all(t, s, &tabs[v], false));
    lengths_v(&ctx, true, 1 << 11, 300, 2, |t, s, v| all(t, s, &tabs[v], false));
    ctx.finish()
}
