//! C18: forms are yielded without reading ahead needlessly.

use kul::parser::{
    AllocError, ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, DefaultCharClassifier, OperatorBindings, RcDatumAllocator,
    SliceDatumAllocator,
};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, Parser, SourceIterItem, SourcePosition, SourceStream, Text, TextBase, TextConcat};
use kulmc::conv::{calls_diff, item_eq, item_m, Posish};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::{chain, cut, cut_every, hash_bindings, pair_bindings, posstrs, Hook, Log, Strishy};
use kulmc::model::{self, show_item, Macro, Need, Run};
use kulmc::spaces::{inputs_v, lengths_v, nested_v, pumped_v, slots_v, sv, wide_by, SLOTS, SLOTS_MACROS, UNI};
use kulmc::tables;
use kulmc::words::strings;
use std::cell::{Cell, RefCell};
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

/// What may have been pulled when something happens.
struct Allow<'a> {
    /// Number of characters before each piece, empty ones included.
    starts: &'a [usize],
    /// Number of pieces up to the first non-empty one.
    first: usize,
}
impl Allow<'_> {
    /// Pieces that must be pulled to look at so many characters.
    fn pieces(&self, need: Need) -> usize {
        if need == usize::MAX {
            // Also the end was asked for.
            return usize::MAX;
        }
        let n = self.starts.partition_point(|&s| s < need);
        n.max(self.first)
    }
}

struct Probe {
    pulls: Rc<Cell<usize>>,
    at_calls: Rc<RefCell<Vec<usize>>>,
}

/// Ask for items one by one, watching how much was pulled, and stop after `take`.
fn watch<DA, OB, S>(
    t: &mut Tally,
    p: &mut Parser<DefaultCharClassifier, DA, OB>,
    make: impl FnOnce() -> S,
    pr: &Probe,
    want: &Run,
    allow: &Allow<'_>,
    take: usize,
) -> Verdict
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA>,
    <DA::TT as TextBase>::Pos: Posish + SourcePosition,
    OB: OperatorBindings<DA, CE = u32>,
    S: SourceStream<DA>,
{
    let src = make();
    if pr.pulls.get() > allow.first {
        return Err(format!("{} pieces pulled when the source is made", pr.pulls.get()));
    }
    let mut it = p.parse(src);
    if pr.pulls.get() > allow.first || !pr.at_calls.borrow().is_empty() {
        return Err(format!("{} pieces pulled, {} macros called before the first item is asked for", pr.pulls.get(), pr.at_calls.borrow().len()));
    }
    for k in 0..take {
        let r = it.next();
        t.steps += 1;
        match (&r, want.items.get(k)) {
            (None, None) => break,
            (Some(r), Some(w)) => {
                let r = item_m(r);
                if !item_eq(&r, w, false) {
                    return Err(format!("item {k}: expected {}, got {}", show_item(w), show_item(&r)));
                }
                let max = allow.pieces(want.item_need[k]);
                if pr.pulls.get() > max {
                    return Err(format!("item {k} is yielded after pulling {} pieces; {max} show it is complete", pr.pulls.get()));
                }
                if pr.at_calls.borrow().len() != want.item_calls[k] {
                    return Err(format!("{} macros called when item {k} is yielded, expected {}", pr.at_calls.borrow().len(), want.item_calls[k]));
                }
            }
            (r, w) => return Err(format!("item {k}: {} instead of {}", r.is_some(), w.is_some())),
        }
    }
    // Giving the iteration up pulls nothing and calls nothing.
    let (a, b) = (pr.pulls.get(), pr.at_calls.borrow().len());
    drop(it);
    if (a, b) != (pr.pulls.get(), pr.at_calls.borrow().len()) {
        return Err("abandoning the iteration reads on".into());
    }
    for (c, n) in pr.at_calls.borrow().iter().enumerate() {
        let max = allow.pieces(want.call_need[c]);
        if *n > max {
            return Err(format!("macro call {c} happens after pulling {n} pieces; {max} show the nest is complete"));
        }
    }
    t.traces += 1;
    Ok(())
}

fn hook(pr: &Probe) -> Hook {
    let (p, c) = (pr.pulls.clone(), pr.at_calls.clone());
    Rc::new(move || c.borrow_mut().push(p.get()))
}

fn probe() -> Probe {
    Probe { pulls: Default::default(), at_calls: Default::default() }
}

fn counted<I: Iterator>(it: I, pulls: &Rc<Cell<usize>>) -> impl Iterator<Item = I::Item> {
    let p = pulls.clone();
    let mut it = it.fuse();
    std::iter::from_fn(move || {
        p.set(p.get() + 1);
        it.next()
    })
}

fn streams<R: Strishy, DA>(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro], want: &Run, take: usize, chars: bool, mk: impl Fn() -> DA) -> Verdict
where
    DA: DatumAllocator<TT = TextVec<PosStrish<R>>, ET = u32>,
    DA::DR: Hash + Eq,
{
    let log: Log = Default::default();
    let pr = probe();
    let mut da = mk();
    let bindings = hash_bindings(macros, &log, Some(hook(&pr)), &mut da);
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
    if chars {
        let n = s.chars().count();
        let starts: Vec<usize> = (0..n).collect();
        let allow = Allow { starts: &starts, first: 1 };
        watch(t, &mut p, || CharIterSourceStream::new(counted(s.chars(), &pr.pulls), R::conv), &pr, want, &allow, take).map_err(|m| format!("characters: {m}"))
    } else {
        let mut starts = vec![];
        let mut c = 0;
        for x in pieces {
            starts.push(c);
            c += x.chars().count();
        }
        let first = pieces.iter().position(|x| !x.is_empty()).map_or(usize::MAX, |i| i + 1);
        let allow = Allow { starts: &starts, first };
        watch(t, &mut p, || StrishIterSourceStream::new(counted(pieces.iter().map(|x| R::mk(x)), &pr.pulls)), &pr, want, &allow, take)
            .map_err(|m| format!("pieces {pieces:?}: {m}"))
    }
}

fn by_kind(t: &mut Tally, kind: usize, s: &str, pieces: &[&str], macros: &[Macro], want: &Run, take: usize, chars: bool) -> Verdict {
    macro_rules! go {
        ($r:ty, $a:ident) => {
            streams::<$r, _>(t, s, pieces, macros, want, take, chars, $a::<TextVec<PosStrish<$r>>, u32>::default)
        };
    }
    match kind % 6 {
        0 => go!(Rc<String>, BoxDatumAllocator),
        1 => go!(Rc<str>, RcDatumAllocator),
        2 => go!(Rc<Box<str>>, ArcDatumAllocator),
        3 => go!(Arc<String>, RcDatumAllocator),
        4 => go!(Arc<str>, BoxDatumAllocator),
        _ => go!(Arc<Box<str>>, ArcDatumAllocator),
    }
}

/// A source of the user's that lends its inner source, so that what is left can
/// be read afterwards.
struct Lent<P, I> {
    inner: Rc<RefCell<I>>,
    taken: Rc<Cell<usize>>,
    peeked: Option<SourceIterItem<P>>,
}
impl<P, I: Iterator<Item = SourceIterItem<P>>> Iterator for Lent<P, I> {
    type Item = SourceIterItem<P>;
    fn next(&mut self) -> Option<Self::Item> {
        let r = self.inner.borrow_mut().next();
        self.taken.set(self.taken.get() + r.is_some() as usize);
        r
    }
}
impl<DA, I, P> SourceStream<DA> for Lent<P, I>
where
    DA: DatumAllocator,
    DA::TT: TextBase<Pos = P> + TextConcat<DA>,
    P: SourcePosition,
    I: SourceStream<DA> + Iterator<Item = SourceIterItem<P>>,
{
    fn peek(&mut self) -> Option<&Self::Item> {
        self.peeked = self.inner.borrow_mut().peek().cloned();
        self.peeked.as_ref()
    }
    fn next_accum(&mut self, da: &mut DA) -> Result<Option<Self::Item>, AllocError> {
        let r = self.inner.borrow_mut().next_accum(da)?;
        self.taken.set(self.taken.get() + r.is_some() as usize);
        Ok(r)
    }
    fn accum_done(&mut self, da: &mut DA) -> Result<DA::TT, AllocError> {
        self.inner.borrow_mut().accum_done(da)
    }
}

/// Stop after so many items; the rest of the source must be left.
fn rest<DA>(t: &mut Tally, s: &str, chunks: Vec<<DA::TT as Text>::Chunk>, macros: &[Macro], want: &Run, take: usize, mut da: DA) -> Verdict
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA> + Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish + SourcePosition,
{
    let src: Vec<char> = s.chars().collect();
    let log: Log = Default::default();
    let pr = probe();
    let bindings = pair_bindings(macros, &log, Some(hook(&pr)), &mut da);
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
    let text: DA::TT = chain(chunks, &mut p.allocator);
    let inner = Rc::new(RefCell::new(text.iter()));
    {
        let st = Lent { inner: inner.clone(), taken: pr.pulls.clone(), peeked: None };
        let mut it = p.parse(st);
        for k in 0..take {
            let Some(r) = it.next() else { return Err(format!("item {k} is missing")) };
            let r = item_m(&r);
            if !item_eq(&r, &want.items[k], false) {
                return Err(format!("item {k}: expected {}, got {}", show_item(&want.items[k]), show_item(&r)));
            }
        }
    }
    let left: Vec<char> = inner.borrow_mut().by_ref().map(|x| x.ch).collect();
    let at = if take == 0 { 0 } else { want.item_pos[take - 1] };
    if left != src[at..] {
        return Err(format!(
            "after {take} items {:?} is left of the source, expected {:?}",
            left.iter().collect::<String>(),
            src[at..].iter().collect::<String>()
        ));
    }
    let n = if take == 0 { 0 } else { want.item_calls[take - 1] };
    if let Some(m) = calls_diff(&want.calls[..n], &log.borrow(), false) {
        return Err(format!("after {take} items: {m}"));
    }
    if pr.pulls.get() != at {
        return Err(format!("after {take} items {} characters were taken, expected {at}", pr.pulls.get()));
    }
    t.traces += 1;
    t.steps += at as u64;
    Ok(())
}

fn case(t: &mut Tally, s: &str, macros: &[Macro], cuts: u32, salt: usize) -> Verdict {
    let want = model::parse_str(s, macros);
    let n = s.chars().count();
    let masks = 1u64 << (n.saturating_sub(1) as u32).min(cuts);
    let end = want.items.len() + 2;
    for mask in 0..masks {
        // Long sources are cut regularly.
        let p = if n > 1 + cuts as usize { cut_every(s, [usize::MAX, 1, 2, 7][mask as usize % 4]) } else { cut(s, mask) };
        let kind = salt + mask as usize;
        by_kind(t, kind, s, &p, macros, &want, end, false)?;
        // Empty pieces anywhere must not lead further.
        if mask % 3 == 0 {
            let mut gaps = vec!["", ""];
            gaps.extend(p.iter().flat_map(|x| [*x, "", ""]));
            by_kind(t, kind + 1, s, &gaps, macros, &want, end, false)?;
        }
        if mask % 5 == 1 && n <= 40 {
            for take in 0..end {
                by_kind(t, kind, s, &p, macros, &want, take, false)?;
            }
        }
    }
    for k in 0..2 {
        by_kind(t, salt + k, s, &[s], macros, &want, end, true)?;
    }
    let p = cut(s, if salt % 2 == 0 { 0 } else { 0x2492_4924_9249_2492 });
    if n <= 40 {
        for take in 0..=want.items.len() {
            rest(t, s, posstrs(s, &p), macros, &want, take, BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default())?;
            let mut slots: Vec<_> = (0..64 + 8 * n).map(|_| Datum::EmptyNest).collect();
            let da = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut slots);
            rest(t, s, posstrs(s, &p), macros, &want, take, da)?;
        }
    }
    t.state = Some(hash64(&(&want.item_need, &want.call_need, &want.items)));
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C18");
    let few = tables::few();
    let plain = tables::plain();
    let chars = ["{", "}", "\\", " ", "o", "p"];
    inputs_v(&ctx, "chars", &chars, ctx.pick(3, 6, 7), few.len(), |t, s, v| case(t, s, &few[v], 6, v));
    inputs_v(&ctx, "chars_more", &chars[..5], ctx.pick(3, 5, 6), plain.len(), |t, s, v| case(t, s, &plain[v], 2, v));
    inputs_v(&ctx, "unicode", UNI, ctx.pick(2, 3, 4), 1, |t, s, v| case(t, s, &[], 6, v));
    slots_v(&ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 8, 1)), ctx.threads, 1, |t, s, v| case(t, s, &[], 2, v));
    slots_v(&ctx, "slots_macros", SLOTS_MACROS, &wide_by(ctx.pick(29, 25, 1)), ctx.threads, 1, |t, s, v| case(t, s, &few[v], 2, v));
    let toks = ["{o ", "{p ", "{", "}", "x", " ", "\\}", "{x}"];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(3, 4, 5), few.len(), |t, s, v| case(t, s, &few[v], 7, v));
    inputs_v(&ctx, "pieces_long", &toks[..5], ctx.pick(4, 6, 7), few.len(), |t, s, v| case(t, s, &few[v], 2, v));
    let us = strings(&["{p ", "{x ", "y"], 0, 1);
    let vs = strings(&["{o x}", "{p y}", "x", "{}", "}", "{x ", "\\"], 1, 2);
    let ws = sv(&["", "}", "z}"]);
    pumped_v(&ctx, "pumped", &us, &vs, &ws, ctx.pick(&[7], &[7, 40], &[7, 40, 200]), 64, ctx.threads, few.len(), |t, s, v| case(t, s, &few[v], 2, v));
    let opens = sv(&["{o ", "{p ", "{x ", "{", "{{p}{o} "]);
    let ks: &[usize] = ctx.pick(&[3], &[3, 17, 60], &[3, 17, 60, 200]);
    nested_v(&ctx, "nested", &sv(&["", "y"]), &opens, &sv(&["", "x"]), &sv(&["}", " x}", "{o y}}"]), &sv(&["", "z"]), ks, 256, ctx.threads, few.len(), |t, s, v| case(t, s, &few[v], 2, v));
    // Sources longer than any buffer one would think of.
    let vs = sv(&["a", "{a}", "x{p}", "λ"]);
    let ks: &[usize] = ctx.pick(&[], &[9_000, 70_000], &[9_000, 70_000, 300_000]);
    pumped_v(&ctx, "huge", &sv(&["", "{}{p}x{a b}", "{x "]), &vs, &sv(&["", "{}y", "}{}"]), ks, 512, ctx.threads, 2, |t, s, v| case(t, s, &few[v], 2, v));
    lengths_v(&ctx, true, 1 << 11, 300, 2, |t, s, v| case(t, s, &few[v], 2, v));
    ctx.finish()
}
