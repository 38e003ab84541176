//! C02: bound operators call the right macro with the right arguments, in order.

use kulmc::conv::{calls_diff, items_diff};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::run_default;
use kulmc::model::{self, Macro};
use kulmc::spaces::{inputs_v, lengths_v, nested_v, pumped_v, slots_v, sv, wide_by, SLOTS_MACROS};
use kulmc::tables;
use kulmc::words::strings;

fn check(t: &mut Tally, s: &str, macros: &[Macro]) -> Verdict {
    let want = model::parse_str(s, macros);
    let got = run_default(s, macros)?;
    t.traces += 1;
    t.steps += want.steps;
    if let Some(m) = calls_diff(&want.calls, &got.calls, false) {
        return Err(m);
    }
    if let Some(m) = items_diff(&want.items, &got.items, false) {
        return Err(m);
    }
    t.add("macro_calls", got.calls.len() as u64);
    t.state = Some(hash64(&(&want.items, &want.calls)));
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C02");
    let plain = tables::plain();
    let shaped = tables::shaped();
    let few = tables::few();
    // Characters.
    let chars = ["{", "}", "\\", " ", "o", "p", "x"];
    inputs_v(&ctx, "chars", &chars, ctx.pick(4, 6, 7), plain.len(), |t, s, v| check(t, s, &plain[v]));
    inputs_v(&ctx, "chars_shaped", &chars, ctx.pick(4, 5, 7), shaped.len(), |t, s, v| check(t, s, &shaped[v]));
    inputs_v(&ctx, "chars_long", &chars, ctx.pick(5, 7, 8), few.len(), |t, s, v| check(t, s, &few[v]));
    // Pieces of nests, reaching deeper structures.
    let toks = ["{o ", "{p ", "{x ", "{", "}", "x", " ", "\\}", "{}", "{x}"];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(4, 5, 6), plain.len(), |t, s, v| check(t, s, &plain[v]));
    inputs_v(&ctx, "pieces_shaped", &toks, ctx.pick(3, 5, 6), shaped.len(), |t, s, v| check(t, s, &shaped[v]));
    let few_toks = ["{o ", "{p ", "{", "}", "x"];
    inputs_v(&ctx, "pieces_long", &few_toks, ctx.pick(6, 8, 10), few.len(), |t, s, v| check(t, s, &few[v]));
    slots_v(&ctx, "slots", SLOTS_MACROS, &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 3, |t, s, v| check(t, s, &few[v]));
    // Other returned forms and errors.
    let odd = tables::odd();
    inputs_v(&ctx, "chars_odd", &chars, ctx.pick(4, 5, 6), odd.len(), |t, s, v| check(t, s, &odd[v]));
    inputs_v(&ctx, "pieces_odd", &toks, ctx.pick(3, 4, 5), odd.len(), |t, s, v| check(t, s, &odd[v]));
    // Repetition.
    let us = sv(&["", "{p ", "{o ", "{", "{x ", "y"]);
    let vs = strings(&["{o x}", "{p y}", "x", "{}", "{x{p}", "}", "{p {o}"], 1, ctx.pick(1, 2, 3));
    let ws = sv(&["", "}", "}}}}", "z}"]);
    let ks: &[usize] = ctx.pick(&[7], &[7, 70], &[7, 70, 300]);
    pumped_v(&ctx, "pumped", &us, &vs, &ws, ks, 256, ctx.threads, few.len(), |t, s, v| check(t, s, &few[v]));
    let e = sv(&[""]);
    let opens = sv(&["{o ", "{p ", "{x ", "{", "{p{o}", "{{o p} ", "{{p}{o} ", "{p x{x}"]);
    let mids = sv(&["", "x", "{p}"]);
    let closes = sv(&["}", " x}", "{o y}}", "\\}}"]);
    let posts = sv(&["", "}", "{p}z"]);
    let ks: &[usize] = ctx.pick(&[2, 9], &[2, 3, 9, 40, 200], &[2, 3, 4, 9, 17, 40, 200, 600]);
    nested_v(&ctx, "nested", &sv(&["", "y{o}"]), &opens, &mids, &closes, &posts, ks, 512, ctx.threads, few.len(), |t, s, v| check(t, s, &few[v]));
    let huge: &[usize] = ctx.pick(&[], &[66_000], &[66_000, 200_000]);
    let vs = sv(&["{o x}", "{p y}", "x{o}", "{x}", "{}"]);
    pumped_v(&ctx, "huge", &sv(&["", "{p ", "{o ", "{x "]), &vs, &ws[..2], huge, 2048, ctx.threads, few.len(), |t, s, v| check(t, s, &few[v]));
    let opens = sv(&["{o ", "{p ", "{p x", "{"]);
    nested_v(&ctx, "hugenest", &e, &opens, &sv(&["x"]), &sv(&["}"]), &sv(&["", "}"]), ctx.pick(&[], &[1_200], &[5_000]), 3000, ctx.threads.min(4), 3, |t, s, v| check(t, s, &few[v]));
    // Nests within an operative's raw operands, where depth is only counted.
    let raw = &few[1..];
    let opens = sv(&["{", "x{", "{o ", "{\\{", "{} {"]);
    let closes = sv(&["}", "}y", "{}}"]);
    let ks: &[usize] = ctx.pick(&[3], &[3, 300, 66_000], &[3, 300, 66_000, 300_000]);
    nested_v(&ctx, "rawnest", &sv(&["{o ", "{p {o "]), &opens, &sv(&["", "x"]), &closes, &sv(&["}", "", "}}z", "}{o x}}"]), ks, 1024, ctx.threads, raw.len(), |t, s, v| check(t, s, &raw[v]));
    lengths_v(&ctx, true, 1 << 12, 300, few.len(), |t, s, v| check(t, s, &few[v]));
    ctx.finish()
}
