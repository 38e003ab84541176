//! C03: results do not depend on how the source text is split or delivered.

use kulmc::conv::{calls_diff, items_diff};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::{cut, run, run_default, run_gappy, Alloc, Bind, Cfg, Outcome, Req, Src, Str, Txt, STRS};
use kulmc::model::Macro;
use kulmc::spaces::{inputs_v, lengths_v, nested_v, pumped_v, slots_v, sv, wide_by, SLOTS, SLOTS_MACROS, UNI};
use kulmc::tables;
use kulmc::words::strings;

#[derive(Clone, Copy, Debug)]
enum How {
    Text(Src),
    Gappy,
}

fn one(s: &str, pieces: &[&str], macros: &[Macro], how: How) -> Result<Outcome, String> {
    let n = s.chars().count();
    let req = Req { whole: s, pieces, macros, cap: n + 1, hook: None, slots: 0 };
    match how {
        How::Gappy => run_gappy(&req),
        How::Text(src) => run(Cfg { src, alloc: Alloc::Box, txt: Txt::Vec, bind: Bind::Hash }, &req),
    }
}

/// Compare one delivery with the reference.
fn against(t: &mut Tally, r: &Outcome, s: &str, pieces: &[&str], macros: &[Macro], how: How) -> Verdict {
    let what = |m: String| {
        let mut p = format!("{pieces:?}");
        if p.len() > 300 {
            p = format!("{} pieces", pieces.len());
        }
        format!("{how:?} delivered as {p}: {m}")
    };
    let got = one(s, pieces, macros, how).map_err(what)?;
    t.traces += 1;
    t.steps += pieces.len() as u64;
    if let Some(m) = calls_diff(&r.calls, &got.calls, true).or_else(|| items_diff(&r.items, &got.items, true)) {
        return Err(what(m + " (expected: result for one string)"));
    }
    Ok(())
}

fn reference(t: &mut Tally, s: &str, macros: &[Macro]) -> Result<Outcome, String> {
    let r = run_default(s, macros)?;
    t.traces += 1;
    t.state = Some(hash64(&(&r.items, &r.calls)));
    Ok(r)
}

/// All ways to cut, through the given kinds of source.
fn cuts(t: &mut Tally, s: &str, macros: &[Macro], hows: &[How]) -> Verdict {
    let r = reference(t, s, macros)?;
    let n = s.chars().count();
    for mask in 0..1u64 << n.saturating_sub(1) {
        let p = cut(s, mask);
        for &h in hows {
            against(t, &r, s, &p, macros, h)?;
        }
    }
    Ok(())
}

/// All ways to cut, with empty pieces anywhere (up to `most` of them in a row).
fn empties(t: &mut Tally, s: &str, macros: &[Macro], hows: &[How], most: usize) -> Verdict {
    let r = reference(t, s, macros)?;
    let n = s.chars().count();
    for mask in 0..1u64 << n.saturating_sub(1) {
        let base: Vec<&str> = if s.is_empty() { vec![] } else { cut(s, mask) };
        let gaps = base.len() + 1;
        for mut code in 0..(most + 1).pow(gaps as u32) {
            let mut p = vec![];
            for g in 0..gaps {
                for _ in 0..code % (most + 1) {
                    p.push("");
                }
                code /= most + 1;
                if g < base.len() {
                    p.push(base[g]);
                }
            }
            for &h in hows {
                against(t, &r, s, &p, macros, h)?;
            }
        }
    }
    Ok(())
}

/// One piece per character, with a long run of empty ones in one gap.
fn runs(t: &mut Tally, s: &str, macros: &[Macro], hows: &[How], run: usize) -> Verdict {
    let r = reference(t, s, macros)?;
    let base: Vec<&str> = if s.is_empty() { vec![] } else { cut(s, u64::MAX) };
    for g in 0..=base.len() {
        let mut p = base.clone();
        p.splice(g..g, std::iter::repeat_n("", run));
        t.alive();
        for &h in hows {
            against(t, &r, s, &p, macros, h)?;
        }
    }
    Ok(())
}

/// Pieces of equal sizes, one cut anywhere.
fn regular(t: &mut Tally, s: &str, macros: &[Macro], hows: &[How], sizes: &[usize], every_cut: bool) -> Verdict {
    let r = reference(t, s, macros)?;
    let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let n = at.len() - 1;
    let mut layouts: Vec<Vec<&str>> = vec![vec![s]];
    for &z in sizes {
        for off in 0..z.min(2) {
            let mut p = vec![];
            let mut i = 0;
            let mut j = if off == 0 { z.min(n) } else { off.min(n) };
            loop {
                p.push(&s[at[i]..at[j]]);
                if j == n {
                    break;
                }
                i = j;
                j = (j + z).min(n);
            }
            layouts.push(p);
        }
    }
    // The same with an empty piece behind each.
    for k in (1..layouts.len()).step_by(2) {
        let p: Vec<&str> = layouts[k].iter().flat_map(|x| [*x, ""]).collect();
        t.alive();
        for h in [How::Gappy, How::Text(Src::Strish(Str::RcStr))] {
            against(t, &r, s, &p, macros, h)?;
        }
    }
    if every_cut {
        for k in 0..=n {
            layouts.push(vec![&s[..at[k]], &s[at[k]..]]);
        }
    }
    for p in &layouts {
        t.alive();
        for &h in hows {
            against(t, &r, s, p, macros, h)?;
        }
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C03");
    let few = tables::few();
    let main = [How::Text(Src::PosStr), How::Gappy, How::Text(Src::StrishText(Str::ArcStr)), How::Text(Src::Strish(Str::RcString)), How::Text(Src::Chars(Str::RcStr))];
    let lean = [How::Text(Src::PosStr), How::Text(Src::Strish(Str::ArcBox))];
    let mut all = vec![How::Text(Src::PosStr), How::Gappy];
    for s in STRS {
        all.extend([How::Text(Src::StrishText(s)), How::Text(Src::Strish(s)), How::Text(Src::Chars(s))]);
    }
    let alpha = ["{", "}", "\\", " ", "o", "p", "λ"];
    inputs_v(&ctx, "cuts", &alpha, ctx.pick(4, 5, 6), 4, |t, s, v| cuts(t, s, &few[v], &main));
    inputs_v(&ctx, "cuts_kinds", &alpha, ctx.pick(2, 4, 4), 2, |t, s, v| cuts(t, s, &few[v * 3], &all));
    let small = ["{", "}", "\\", " ", "o"];
    inputs_v(&ctx, "cuts_long", &small, ctx.pick(5, 7, 8), 2, |t, s, v| cuts(t, s, &few[v], &lean));
    inputs_v(&ctx, "unicode", UNI, ctx.pick(2, 3, 4), 1, |t, s, v| cuts(t, s, &few[v], &all));
    // Each character next to each, whole and as pieces of their own.
    let each = |t: &mut Tally, s: &str, v: usize| {
        let r = reference(t, s, &few[v])?;
        for h in [How::Text(Src::PosStr), How::Gappy, How::Text(Src::Strish(Str::RcStr))] {
            against(t, &r, s, &cut(s, u64::MAX), &few[v], h)?;
        }
        against(t, &r, s, &cut(s, 0x5555), &few[v], How::Text(Src::Strish(Str::RcStr)))?;
        let kind = STRS[s.chars().map(|c| c as usize).sum::<usize>() % STRS.len()];
        for h in [Src::StrishText(kind), Src::Strish(kind), Src::Chars(kind)] {
            against(t, &r, s, &[s], &few[v], How::Text(h))?;
        }
        Ok(())
    };
    slots_v(&ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 1, each);
    slots_v(&ctx, "slots_macros", SLOTS_MACROS, &wide_by(ctx.pick(29, 8, 1)), ctx.threads, 2, each);
    let gaps = [How::Gappy, How::Text(Src::Strish(Str::RcStr)), How::Text(Src::StrishText(Str::RcBox))];
    inputs_v(&ctx, "empties", &alpha, ctx.pick(3, 4, 5), 3, |t, s, v| empties(t, s, &few[v], &gaps, 1));
    inputs_v(&ctx, "empties2", &alpha, ctx.pick(2, 3, 4), 3, |t, s, v| empties(t, s, &few[v], &gaps, 3));
    inputs_v(&ctx, "empties_kinds", &small, ctx.pick(2, 3, 3), 1, |t, s, v| empties(t, s, &few[v], &all, 1));
    let lengths: &[usize] = ctx.pick(&[20], &[17, 70, 300, 1100, 4200], &[17, 70, 300, 1100, 4200, 70_000]);
    inputs_v(&ctx, "runs", &["{o ", "}", "\\", " ", "λ"], ctx.pick(2, 3, 3), lengths.len(), |t, s, v| runs(t, s, &few[v % 3], &gaps, lengths[v]));
    let us = sv(&["", "{", "{o ", "}", "{p "]);
    let vs = strings(&["{", "}", "\\", " ", "λ", "{o x}", "{p y}"], 1, ctx.pick(1, 2, 3));
    let ws = sv(&["", "}", "\\"]);
    pumped_v(&ctx, "pumped", &us, &vs, &ws, ctx.pick(&[6], &[6, 21], &[6, 21, 90]), 64, ctx.threads, 3, |t, s, v| regular(t, s, &few[v], &main, &[1, 2, 3, 4, 7], true));
    let e = sv(&[""]);
    let vs = sv(&["λ", "\\{", "{o x}", "{a b}", "{}", "}", "𝄞 "]);
    pumped_v(&ctx, "huge", &sv(&["", "{a ", "{o "]), &vs, &sv(&["", "}"]), ctx.pick(&[], &[33_000], &[33_000, 140_000]), 1024, ctx.threads, 2, |t, s, v| regular(t, s, &few[v], &main, &[1, 4096, 65_536], false));
    nested_v(&ctx, "nested", &e, &sv(&["{", "{o ", "{p ", "{\\}"]), &sv(&["", "a"]), &sv(&["}", "\\a}"]), &sv(&["", "}"]), ctx.pick(&[5], &[5, 60], &[5, 60, 400]), 512, ctx.threads, 3, |t, s, v| regular(t, s, &few[v], &main, &[1, 2, 3], true));
    let every: Vec<usize> = kulmc::spaces::lengths(&ctx, 300).into_iter().filter(|&n| n > 0).collect();
    pumped_v(&ctx, "sizes", &sv(&["", "{a ", "{o "]), &sv(&["λ", "\\{a", "{o x}b", "{a b}"]), &sv(&["", "}"]), ctx.pick(&[6], &[150], &[150, 400]), 64, ctx.threads, 1, |t, s, v| regular(t, s, &few[v], &main, &every, false));
    lengths_v(&ctx, true, 1 << 11, 300, 1, |t, s, _| regular(t, s, &few[0], &main, &[1, 64, 100], false));
    ctx.finish()
}
