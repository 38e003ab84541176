//! C06: errors are exact, parsing resumes after them, and iteration always ends.

use kul::parser::BoxDatumAllocator;
use kul::text::chunk::PosStr;
use kul::text::TextVec;
use kulmc::conv::{item_eq, items_diff};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::{cut, run, run_default, run_posstr, Alloc, Bind, Cfg, Req, Src, Str, Txt};
use kulmc::model::{self, mtext, show_item, Effect, Item, Kind, MErr, Macro};
use kulmc::spaces::{inputs_v, lengths_v, nested_v, pumped_v, slots_v, sv, wide_by, SLOTS, SLOTS_MACROS, UNI};
use kulmc::tables::{self, mac};
use kulmc::words::strings;

/// What is claimed about errors: kinds, places, and where the forms are.
fn errors_diff(want: &[Item], got: &[Item]) -> Option<String> {
    for k in 0..want.len().max(got.len()) {
        let ok = match (want.get(k), got.get(k)) {
            (Some(a @ Err(_)), Some(b @ Err(_))) => item_eq(a, b, true),
            (Some(Ok(a)), Some(Ok(b))) => a == b,
            _ => false,
        };
        if !ok {
            let f = |x: Option<&Item>| x.map_or("end".to_string(), show_item);
            return Some(format!("item {k}: expected {}, got {}", f(want.get(k)), f(got.get(k))));
        }
    }
    None
}

fn check(t: &mut Tally, s: &str, macros: &[Macro]) -> Verdict {
    let n = s.chars().count();
    let want = model::parse_str(s, macros);
    let got = run_default(s, macros)?;
    t.traces += 1;
    t.steps += want.steps;
    if got.items.len() > n + 1 {
        return Err(format!("{} items from {n} characters", got.items.len()));
    }
    if let Some(m) = errors_diff(&want.items, &got.items) {
        return Err(m);
    }
    if got.calls.len() != want.calls.len() {
        return Err(format!("{} macro calls, expected {}", got.calls.len(), want.calls.len()));
    }
    t.add("errors", got.items.iter().filter(|x| x.is_err()).count() as u64);
    t.state = Some(hash64(&want.items));
    Ok(())
}

/// Also: what follows an error is what the rest of the input yields alone, in
/// the implementation itself, for several kinds of source.
fn resume(t: &mut Tally, s: &str, macros: &[Macro]) -> Verdict {
    check(t, s, macros)?;
    let want = model::parse_str(s, macros);
    let got = run_default(s, macros)?;
    let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    for (k, i) in got.items.iter().enumerate() {
        if i.is_err() {
            let from = want.item_pos[k];
            let rest = &s[at[from]..];
            let alone = run_default(rest, macros)?;
            t.traces += 1;
            // Positions in the rest are relative to its start.
            let shifted: Vec<Item> = alone
                .items
                .into_iter()
                .map(|x| match x {
                    Err(MErr::Unbalanced(p)) => Err(MErr::Unbalanced(p + from as u32)),
                    x => x,
                })
                .collect();
            if let Some(m) = errors_diff(&shifted, &got.items[k + 1..]) {
                return Err(format!("after the error of item {k}, against the rest {rest:?} alone: {m}"));
            }
        }
    }
    // Other sources, in one piece and in single characters.
    let ones = cut(s, u64::MAX);
    for src in [Src::PosStr, Src::Strish(Str::ArcString), Src::StrishText(Str::RcStr), Src::Chars(Str::RcString)] {
        for pieces in [&[s][..], &ones[..]] {
            let req = Req { whole: s, pieces, macros, cap: s.chars().count() + 1, hook: None, slots: 0 };
            let o = run(Cfg { src, alloc: Alloc::Rc, txt: Txt::Vec, bind: Bind::Pair }, &req)?;
            t.traces += 1;
            if let Some(m) = errors_diff(&want.items, &o.items) {
                return Err(format!("{src:?} {pieces:?}: {m}"));
            }
        }
    }
    Ok(())
}

/// Position in chunked borrowed text.
fn chunked(t: &mut Tally, s: &str, macros: &[Macro]) -> Verdict {
    let n = s.chars().count();
    let want = model::parse_str(s, macros);
    for mask in 0..1u64 << n.saturating_sub(1) {
        let p = cut(s, mask);
        let req = Req { whole: s, pieces: &p, macros, cap: n + 1, hook: None, slots: 0 };
        let o = run_posstr(&req, Bind::Hash, BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), kulmc::imp::posstrs(s, &p))?;
        t.traces += 1;
        t.steps += want.steps;
        if let Some(m) = errors_diff(&want.items, &o.items).or_else(|| items_diff(&want.items, &o.items, false)) {
            return Err(format!("pieces {p:?}: {m}"));
        }
    }
    t.state = Some(hash64(&want.items));
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C06");
    let fail = |a, b| vec![mac(mtext("o"), Kind::Operative, a), mac(mtext("p"), Kind::Applicative, b)];
    let tabs: Vec<Vec<Macro>> = vec![
        vec![],
        fail(Effect::Fail(7), Effect::Fail(0)),
        fail(Effect::Operands, Effect::Fail(8)),
        fail(Effect::Fail(9), Effect::Remove),
        fail(Effect::Remove, Effect::Wrap),
        {
            let mut v = fail(Effect::Const(9), Effect::Head);
            v.push(mac(model::M::Extra(9), Kind::Applicative, Effect::Fail(5)));
            v.push(mac(model::M::EmptyNest, Kind::Operative, Effect::Fail(6)));
            v
        },
    ];
    let plain = tables::plain();
    let one = [vec![]];
    inputs_v(&ctx, "short", &["{", "}", "\\", " ", "a"], ctx.pick(7, 9, 11), 1, |t, s, v| check(t, s, &one[v]));
    let alpha = ["{", "}", "\\", " ", "o", "p"];
    inputs_v(&ctx, "macros", &alpha, ctx.pick(5, 8, 9), tabs.len(), |t, s, v| check(t, s, &tabs[v]));
    inputs_v(&ctx, "tables", &alpha, ctx.pick(4, 5, 6), plain.len(), |t, s, v| check(t, s, &plain[v]));
    inputs_v(&ctx, "resume", &alpha, ctx.pick(4, 7, 7), tabs.len(), |t, s, v| resume(t, s, &tabs[v]));
    let odd = tables::odd();
    inputs_v(&ctx, "odd", &alpha, ctx.pick(4, 5, 6), odd.len(), |t, s, v| {
        // A position given by a macro does not move with the rest.
        if odd[v].iter().any(|m| m.effect == Effect::Own(3)) {
            check(t, s, &odd[v])
        } else {
            resume(t, s, &odd[v])
        }
    });
    inputs_v(&ctx, "chunked", &["{", "}", "\\", " ", "o", "λ"], ctx.pick(4, 5, 6), 3, |t, s, v| chunked(t, s, &tabs[v]));
    inputs_v(&ctx, "unicode", UNI, ctx.pick(3, 4, 5), 1, |t, s, v| check(t, s, &tabs[v]));
    slots_v(&ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 1, |t, s, v| check(t, s, &tabs[v]));
    slots_v(&ctx, "slots_macros", SLOTS_MACROS, &wide_by(ctx.pick(29, 8, 1)), ctx.threads, 2, |t, s, v| check(t, s, &tabs[v + 1]));
    let toks = ["{o ", "{p ", "{x ", "{", "}", "x", "{}", "\\"];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(4, 7, 8), tabs.len(), |t, s, v| check(t, s, &tabs[v]));
    let us = sv(&["", "}", "{", "{p ", "{o "]);
    let vs = strings(&["{", "}", "\\", "λ", "{o x}", "{p y}", "{a}"], 1, ctx.pick(2, 3, 4));
    pumped_v(&ctx, "pumped", &us, &vs, &sv(&["", "}", "{"]), ctx.pick(&[6], &[6, 30], &[6, 30, 200]), 128, ctx.threads, 3, |t, s, v| check(t, s, &tabs[v]));
    let opens = sv(&["{", "{o ", "{p ", "{x ", "{x{o}", "{p{p}", "}{"]);
    nested_v(&ctx, "nested", &sv(&["", "}", "a"]), &opens, &sv(&["", "{o}", "{p}", "}"]), &sv(&["}", "{o}}", "}}"]), &sv(&["", "}", "{", "b"]), ctx.pick(&[3], &[2, 3, 4, 12, 80], &[2, 3, 4, 5, 12, 80, 500]), 512, ctx.threads, tabs.len(), |t, s, v| check(t, s, &tabs[v]));
    let vs = sv(&["}", "λ}", "{o}", "{p }", "{}", "a{o}", "\\}"]);
    pumped_v(&ctx, "huge", &sv(&["", "{", "{p "]), &vs, &sv(&["", "}"]), ctx.pick(&[], &[70_000], &[70_000, 250_000]), 2048, ctx.threads, 3, |t, s, v| check(t, s, &tabs[v]));
    lengths_v(&ctx, true, 1 << 12, 300, 2, |t, s, v| check(t, s, &tabs[v]));
    ctx.finish()
}
