//! C22: a parser can be reused, nested and abandoned without its past mattering.

use kul::combiner::{ApFn, OpFn};
use kul::parser::{ArcDatumAllocator, BoxDatumAllocator, CharClassifier, DatumAllocator, OperatorBindings, RcDatumAllocator, SliceDatumAllocator};
use kul::source_stream::{to_arc_string, CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Combiner, Datum, DerefTryMut, Parser, SourceStream, Text, TextBase, TextConcat};
use kulmc::conv::{calls_diff, item_eq, item_m, items_diff, text_m, Posish};
use kulmc::engine::{dec, enc, hash64, Ctx, Tally, Verdict};
use kulmc::imp::{chain, cut, cut_every, hash_bindings, pair_bindings, posstrishes, posstrs, DaDatum, HashB, Log, PairB};
use kulmc::model::{mtext, Call, Effect, Item, Kind, MErr, MText, Macro, M};
use kulmc::spaces::{inputs_v, lengths_v, nested_v, pumped_v, sv, BASE2};
use kulmc::tables::{self, mac};
use kulmc::words::strings;
use std::cell::{Cell, RefCell};
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

/// Two notations; the other one has the nest delimiters swapped.
#[derive(Clone, Copy)]
struct Cls(bool);
impl CharClassifier for Cls {
    fn is_nest_start(&self, c: char) -> bool {
        c == if self.0 { '}' } else { '{' }
    }
    fn is_nest_end(&self, c: char) -> bool {
        c == if self.0 { '{' } else { '}' }
    }
    fn is_nest_escape(&self, c: char) -> bool {
        c == '\\'
    }
    fn is_whitespace(&self, c: char) -> bool {
        c.is_whitespace()
    }
}

/// Allocators whose supply can be handed on.
trait Supply: DatumAllocator<ET = u32> {
    fn grab(&mut self) -> Self;
    fn room(&mut self) -> usize;
}
macro_rules! supply {
    ($($t:ident)*) => { $(
        impl<TT: Text> Supply for $t<TT, u32> {
            fn grab(&mut self) -> Self {
                std::mem::take(self)
            }
            fn room(&mut self) -> usize {
                usize::MAX
            }
        }
    )* }
}
supply!(BoxDatumAllocator RcDatumAllocator ArcDatumAllocator);
impl<'a, TT: Text> Supply for SliceDatumAllocator<'a, TT, u32> {
    fn grab(&mut self) -> Self {
        std::mem::replace(self, SliceDatumAllocator::new(&mut []))
    }
    fn room(&mut self) -> usize {
        match self.grab().unused() {
            None => 0,
            Some(s) => {
                let n = s.len();
                *self = SliceDatumAllocator::new(s);
                n
            }
        }
    }
}

/// One parse: of what, how far, and in what notation and with which macros.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Step<'s> {
    s: &'s str,
    stop: usize,
    table: usize,
    other: bool,
}
#[derive(Default, Debug, Hash)]
struct Out {
    items: Vec<Item>,
    calls: Vec<Call>,
    /// Number of calls made when each item was yielded.
    at: Vec<usize>,
    /// Supply before it.
    room: usize,
}

fn play<DA, OB, S>(p: &mut Parser<Cls, DA, OB>, log: &Log, src: S, stop: usize, cap: usize) -> Result<Out, String>
where
    DA: Supply,
    DA::TT: TextConcat<DA>,
    <DA::TT as TextBase>::Pos: Posish,
    OB: OperatorBindings<DA, CE = u32>,
    S: SourceStream<DA>,
{
    let mut o = Out { room: p.allocator.room(), ..Out::default() };
    log.take();
    let mut it = p.parse(src);
    while o.items.len() < stop {
        match it.next() {
            Some(r) => {
                o.items.push(item_m(&r));
                o.at.push(log.borrow().len());
                if o.items.len() > cap {
                    return Err("does not end".into());
                }
            }
            None => {
                if it.next().is_some() {
                    return Err("an item after the end".into());
                }
                break;
            }
        }
    }
    drop(it);
    o.calls = log.take();
    Ok(o)
}

/// Bindings whose public table can be exchanged.
trait Table {
    fn put(&mut self, other: Self);
}
impl<DA> Table for HashB<DA>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: Hash + Eq,
    DA::DR: Hash + Eq,
{
    fn put(&mut self, other: Self) {
        self.hashmap = other.hashmap;
    }
}
impl<DA: DatumAllocator<ET = u32>> Table for PairB<DA> {
    fn put(&mut self, other: Self) {
        self.pairs = other.pairs;
    }
}

type Make<'m, DA, OB> = &'m dyn Fn(usize, &Log, &mut DA) -> OB;

/// All the parses on one parser.
fn seq<'t, DA, OB, S>(da: DA, steps: &[Step<'_>], make: Make<'_, DA, OB>, open: &dyn Fn(usize) -> S) -> Result<Vec<Out>, String>
where
    DA: Supply,
    DA::TT: TextConcat<DA>,
    <DA::TT as TextBase>::Pos: Posish,
    OB: OperatorBindings<DA, CE = u32> + Table,
    S: SourceStream<DA> + 't,
{
    let log: Log = Default::default();
    let mut da = da;
    let bindings = make(steps[0].table, &log, &mut da);
    let mut p = Parser { classifier: Cls(steps[0].other), allocator: da, bindings };
    let mut v = vec![];
    for (i, st) in steps.iter().enumerate() {
        if i > 0 && st.table != steps[i - 1].table {
            let new = make(st.table, &log, &mut p.allocator);
            p.bindings.put(new);
        }
        p.classifier = Cls(st.other);
        v.push(play(&mut p, &log, open(i), st.stop, st.s.len() + 1)?);
    }
    Ok(v)
}

const SETUPS: usize = 6;

fn hashed<DA>(tabs: &[Vec<Macro>]) -> impl Fn(usize, &Log, &mut DA) -> HashB<DA> + '_
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish,
{
    |t, log, da| hash_bindings(&tabs[t], log, None, da)
}
fn paired<DA>(tabs: &[Vec<Macro>]) -> impl Fn(usize, &Log, &mut DA) -> PairB<DA> + '_
where
    DA: DatumAllocator<ET = u32>,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish,
{
    |t, log, da| pair_bindings(&tabs[t], log, None, da)
}

fn pieces(s: &str) -> Vec<&str> {
    if s.len() > 64 {
        cut_every(s, 7)
    } else {
        cut(s, 0x5b5b)
    }
}

/// All the parses in one of the set-ups.
fn history(setup: usize, steps: &[Step<'_>], tabs: &[Vec<Macro>], slots: usize) -> Result<Vec<Out>, String> {
    let cuts: Vec<Vec<&str>> = steps.iter().map(|st| pieces(st.s)).collect();
    match setup {
        0 => {
            let mut da = BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default();
            // Equal inputs are the same text object.
            let mut texts: Vec<Rc<TextVec<PosStr<'_>>>> = vec![];
            for i in 0..steps.len() {
                match (0..i).find(|j| steps[*j].s == steps[i].s) {
                    Some(j) => texts.push(texts[j].clone()),
                    None => texts.push(Rc::new(chain(posstrs(steps[i].s, &cuts[i]), &mut da))),
                }
            }
            seq(da, steps, &hashed(tabs), &|i| texts[i].iter())
        }
        1 => seq(RcDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u32>::default(), steps, &paired(tabs), &|i| {
            StrishIterSourceStream::new(cuts[i].iter().map(|p| Rc::<str>::from(*p)))
        }),
        2 => seq(ArcDatumAllocator::<TextVec<PosStrish<Arc<String>>>, u32>::default(), steps, &hashed(tabs), &|i| {
            CharIterSourceStream::new(steps[i].s.chars(), to_arc_string)
        }),
        3 | 4 => {
            let mut links: Vec<_> = (0..cuts.iter().map(|c| c.len()).sum()).map(|_| Datum::EmptyNest).collect();
            let mut mem: Vec<_> = (0..slots).map(|_| Datum::EmptyNest).collect();
            let mut la = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut links);
            let texts: Vec<_> = (0..steps.len()).map(|i| chain(posstrs(steps[i].s, &cuts[i]), &mut la)).collect();
            let da = SliceDatumAllocator::new(&mut mem);
            if setup == 3 {
                seq(da, steps, &paired(tabs), &|i| texts[i].iter())
            } else {
                seq(da, steps, &hashed(tabs), &|i| texts[i].iter())
            }
        }
        _ => {
            let mut mem: Vec<_> = (0..slots).map(|_| Datum::EmptyNest).collect();
            let da = SliceDatumAllocator::<TextDatumList<'_, PosStrish<Rc<String>>, u32>, u32>::new(&mut mem);
            seq(da, steps, &paired(tabs), &|i| StrishIterSourceStream::new(cuts[i].iter().map(|p| Rc::new(p.to_string()))))
        }
    }
}

/// What was got must be how the fresh parse starts.
fn starts(st: &Step<'_>, fresh: &Out, got: &Out) -> Verdict {
    let n = st.stop.min(fresh.items.len());
    if let Some(m) = items_diff(&fresh.items[..n], &got.items, true) {
        return Err(m);
    }
    let c = if st.stop > fresh.items.len() { fresh.calls.len() } else if n == 0 { 0 } else { fresh.at[n - 1] };
    if let Some(m) = calls_diff(&fresh.calls[..c], &got.calls, true) {
        return Err(m);
    }
    if got.at[..] != fresh.at[..n] {
        return Err("macros called at other times".into());
    }
    Ok(())
}

/// Shift positions as the text they come from has them.
fn moved(items: &mut [Item], pos: &MText) {
    fn go(m: &mut M, pos: &MText) {
        match m {
            M::Text(t) => t.iter_mut().for_each(|x| x.1 = if x.1 == u32::MAX { u32::MAX } else { pos[x.1 as usize].1 }),
            M::Comb(b) => {
                go(&mut b.0, pos);
                go(&mut b.1, pos);
            }
            M::List(v) => v.iter_mut().for_each(|x| go(x, pos)),
            _ => {}
        }
    }
    for i in items {
        match i {
            Ok(m) => go(m, pos),
            Err(MErr::Unbalanced(p)) => *p = pos[*p as usize].1,
            Err(_) => {}
        }
    }
}

fn fresh_items(s: &str, tabs: &[Vec<Macro>], table: usize) -> Result<Out, String> {
    let mut v = history(0, &[Step { s, stop: usize::MAX, table, other: false }], tabs, 0)?;
    Ok(v.pop().unwrap())
}

fn texts_of<'d, TT: Text, ET, DR: DerefTryMut<Target = Datum<TT, ET, DR>>>(d: &'d Datum<TT, ET, DR>, out: &mut Vec<&'d TT>) {
    let mut d = d;
    loop {
        match d {
            Datum::Text(t) => return out.push(t),
            Datum::Combination { operator, operands } => {
                texts_of(&**operator, out);
                d = &**operands;
            }
            Datum::List { elem, next } => {
                texts_of(&**elem, out);
                d = &**next;
            }
            _ => return,
        }
    }
}

/// Parse, then parse the texts in the results again, with the same and another
/// parser, and the texts in those results.
fn again<DA, OB, S>(t: &mut Tally, da: DA, other: DA, src: S, s: &str, tabs: &[Vec<Macro>], table: usize, make: Make<'_, DA, OB>) -> Verdict
where
    DA: Supply,
    DA::TT: TextConcat<DA>,
    <DA::TT as TextBase>::Pos: Posish,
    OB: OperatorBindings<DA, CE = u32>,
    S: SourceStream<DA>,
{
    let log: Log = Default::default();
    let (mut da, mut other) = (da, other);
    let bindings = make(table, &log, &mut da);
    let mut p = Parser { classifier: Cls(false), allocator: da, bindings };
    let bindings = make(0, &log, &mut other);
    let mut q = Parser { classifier: Cls(false), allocator: other, bindings };
    let items: Vec<_> = p.parse(src).take(s.len() + 1).collect();
    let want = fresh_items(s, tabs, table)?;
    let got: Vec<Item> = items.iter().map(item_m).collect();
    if let Some(m) = items_diff(&want.items, &got, true) {
        return Err(m);
    }
    let mut level: Vec<DaDatum<DA>> = items.into_iter().filter_map(|r| r.ok()).collect();
    for depth in 0..2 {
        let mut texts = vec![];
        for d in &level {
            texts_of(d, &mut texts);
        }
        let mut below = vec![];
        for x in &texts {
            let M::Text(chars) = text_m(*x) else { unreachable!() };
            let copy: String = chars.iter().map(|c| c.0).collect();
            for (who, tab) in [("same", table), ("another", 0), ("same", table)] {
                let mut want = fresh_items(&copy, tabs, tab)?;
                moved(&mut want.items, &chars);
                let rs: Vec<_> = if who == "same" { p.parse(x.iter()).take(copy.len() + 1).collect() } else { q.parse(x.iter()).take(copy.len() + 1).collect() };
                let got: Vec<Item> = rs.iter().map(item_m).collect();
                t.traces += 1;
                t.steps += copy.len() as u64;
                if let Some(m) = items_diff(&want.items, &got, true) {
                    return Err(format!("re-parsing the text {copy:?} with the {who} parser (level {depth}): {m}"));
                }
                if depth == 0 && who == "same" {
                    below.extend(rs.into_iter().filter_map(|r| r.ok()));
                }
            }
            if text_m(*x) != M::Text(chars.clone()) || !item_eq(&Ok(text_m(*x)), &Ok(M::Text(chars)), true) {
                return Err(format!("parsing the text {copy:?} changed it"));
            }
        }
        drop(texts);
        level = below;
    }
    Ok(())
}

/// The same in one of the set-ups.
fn reparse(t: &mut Tally, setup: usize, s: &str, tabs: &[Vec<Macro>], table: usize) -> Verdict {
    let p = pieces(s);
    let room = 60 * s.len() + 64;
    match setup {
        0 => {
            let x: TextVec<PosStr<'_>> = chain(posstrs(s, &p), &mut BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default());
            again(t, BoxDatumAllocator::default(), BoxDatumAllocator::default(), x.iter(), s, tabs, table, &hashed(tabs))
        }
        1 => {
            let src = StrishIterSourceStream::new(p.iter().map(|p| Rc::<str>::from(*p)));
            let da = RcDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u32>::default;
            again(t, da(), da(), src, s, tabs, table, &hashed(tabs))
        }
        2 => {
            let src = CharIterSourceStream::new(s.chars(), to_arc_string);
            let da = ArcDatumAllocator::<TextVec<PosStrish<Arc<String>>>, u32>::default;
            again(t, da(), da(), src, s, tabs, table, &paired(tabs))
        }
        3 | 4 => {
            let (mut m1, mut m2, mut m3): (Vec<_>, Vec<_>, Vec<_>) =
                ((0..room).map(|_| Datum::EmptyNest).collect(), (0..room).map(|_| Datum::EmptyNest).collect(), (0..room).map(|_| Datum::EmptyNest).collect());
            let mut la = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut m1);
            let x = chain(posstrs(s, &p), &mut la);
            again(t, SliceDatumAllocator::new(&mut m2), SliceDatumAllocator::new(&mut m3), x.iter(), s, tabs, table, &paired(tabs))
        }
        _ => {
            let da = BoxDatumAllocator::<TextVec<PosStrish<Rc<Box<str>>>>, u32>::default;
            let x: TextVec<PosStrish<Rc<Box<str>>>> = chain(posstrishes(&p), &mut da());
            again(t, da(), da(), x.iter(), s, tabs, table, &paired(tabs))
        }
    }
}

/// What a macro saw and what parsing it gave.
struct Seen {
    operands: MText,
    depth: usize,
    items: Vec<Item>,
}
type Inner = Rc<RefCell<Vec<Seen>>>;

/// `o` parses its operands and gives back the text itself, `p` does so with
/// every text among its operands.  In the inner parse both are bound, too, up
/// to some depth.
fn inner<DA>(depth: usize, seen: &Inner, calls: &Rc<Cell<usize>>, da: &mut DA) -> HashB<DA>
where
    DA: Supply + 'static,
    DA::TT: TextConcat<DA> + Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as TextBase>::Pos: Posish,
    <DA::TT as Text>::Chunk: From<&'static str>,
{
    fn go<DA>(depth: usize, seen: &Inner, calls: &Rc<Cell<usize>>, x: &DA::TT, da: &mut DA)
    where
        DA: Supply + 'static,
        DA::TT: TextConcat<DA> + Hash + Eq,
        DA::DR: Hash + Eq,
        <DA::TT as TextBase>::Pos: Posish,
        <DA::TT as Text>::Chunk: From<&'static str>,
    {
        let M::Text(operands) = text_m(x) else { unreachable!() };
        let mut allocator = da.grab();
        let bindings = if depth == 0 { HashB::new(Default::default()) } else { inner(depth - 1, seen, calls, &mut allocator) };
        let mut p = Parser { classifier: Cls(false), allocator, bindings };
        let items: Vec<Item> = p.parse(x.iter()).take(operands.len() + 1).map(|r| item_m(&r)).collect();
        // Once more, given up at once.
        if let Some(r) = p.parse(x.iter()).next() {
            assert!(items.first().is_some_and(|i| item_eq(i, &item_m(&r), true)), "second parse in a macro differs");
        }
        *da = p.allocator;
        seen.borrow_mut().push(Seen { operands, depth, items });
    }
    let mut h = std::collections::HashMap::new();
    let (s1, c1) = (seen.clone(), calls.clone());
    let o: Box<OpFn<DA, u32>> = Box::new(move |_, x, da: &mut DA| {
        c1.set(c1.get() + 1);
        go(depth, &s1, &c1, &x, da);
        Ok(Some(Datum::Text(x)))
    });
    let (s2, c2) = (seen.clone(), calls.clone());
    let p: Box<ApFn<DA, u32>> = Box::new(move |_, l, da: &mut DA| {
        c2.set(c2.get() + 1);
        let mut v = vec![];
        texts_of(&l, &mut v);
        for x in v {
            go(depth, &s2, &c2, x, da);
        }
        Ok(Some(l))
    });
    h.insert(kulmc::imp::from_m(&mtext("o"), da).unwrap(), Combiner::Operative(o));
    h.insert(kulmc::imp::from_m(&mtext("p"), da).unwrap(), Combiner::Applicative(p));
    HashB::new(h)
}

fn nest<DA, S>(t: &mut Tally, da: DA, src: S, s: &str, depth: usize, tabs: &[Vec<Macro>]) -> Verdict
where
    DA: Supply + 'static,
    DA::TT: TextConcat<DA> + Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as TextBase>::Pos: Posish,
    <DA::TT as Text>::Chunk: From<&'static str>,
    S: SourceStream<DA>,
{
    let seen: Inner = Default::default();
    let calls = Rc::new(Cell::new(0));
    let mut da = da;
    let bindings = inner(depth, &seen, &calls, &mut da);
    let mut p = Parser { classifier: Cls(false), allocator: da, bindings };
    let got: Vec<Item> = p.parse(src).take(s.len() + 1).map(|r| item_m(&r)).collect();
    // Table 1 gives the operands back without looking at them.
    let want = fresh_items(s, tabs, 1)?;
    if let Some(m) = items_diff(&want.items, &got, true) {
        return Err(format!("parsing within macros changes the outer parse: {m}"));
    }
    t.traces += 1;
    for x in seen.borrow().iter() {
        let copy: String = x.operands.iter().map(|c| c.0).collect();
        let mut want = fresh_items(&copy, tabs, if x.depth == 0 { 0 } else { 1 })?;
        moved(&mut want.items, &x.operands);
        if let Some(m) = items_diff(&want.items, &x.items, true) {
            return Err(format!("parsing {copy:?} within a macro: {m}"));
        }
        t.traces += 1;
        t.steps += copy.len() as u64;
    }
    t.state = Some(hash64(&(got, seen.borrow().iter().map(|x| &x.items).collect::<Vec<_>>())));
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C22");
    // The first two are relied on above.
    let o = |e| mac(mtext("o"), Kind::Operative, e);
    let p = |e| mac(mtext("p"), Kind::Applicative, e);
    let mut tabs = vec![vec![], vec![o(Effect::Operands), p(Effect::Operands)]];
    tabs.extend(tables::few().into_iter().skip(2));
    let plainly = tabs.len();
    let q = |e| mac(mtext("q"), Kind::Operative, e);
    let none = |e| mac(M::EmptyNest, Kind::Applicative, e);
    tabs.extend([
        vec![],
        vec![o(Effect::Const(1))],
        vec![o(Effect::Const(2))],
        vec![o(Effect::Const(2)), o(Effect::Const(1))],
        vec![p(Effect::Head), o(Effect::Const(1))],
        vec![o(Effect::Const(2)), p(Effect::Head)],
        vec![p(Effect::Remove), p(Effect::Head), o(Effect::Const(1))],
        vec![mac(mtext("o"), Kind::Applicative, Effect::Wrap), q(Effect::Remove)],
        vec![q(Effect::Fail(1)), none(Effect::Head), p(Effect::Wrap), o(Effect::Const(1))],
        vec![q(Effect::Fail(2)), q(Effect::Fail(1)), none(Effect::Const(3)), none(Effect::Const(4))],
    ]);
    let shared = tabs.len() - plainly;
    let tabs = &tabs;

    // Histories of two and three parses.
    let alpha = ["{", "}", "\\", " ", "o", "p"];
    let one = |t: &mut Tally, setup: usize, steps: &[Step<'_>], slots: usize| -> Verdict {
        let got = history(setup, steps, tabs, slots)?;
        for (i, st) in steps.iter().enumerate() {
            let full = Step { stop: usize::MAX, ..*st };
            // Macro tables take slots for their compound keys.
            let fresh = history(setup, &[full], tabs, slots)?.pop().unwrap();
            t.traces += 1;
            t.steps += st.s.chars().count() as u64;
            starts(st, &fresh, &got[i]).map_err(|m| format!("parse {} of {} on one parser: {m}", i + 1, steps.len()))?;
            if i + 1 == steps.len() {
                t.state = Some(hash64(&(fresh, i, setup)));
            }
        }
        Ok(())
    };
    let show = |setup: usize, steps: &[Step<'_>]| {
        let v: Vec<String> = steps.iter().map(|s| format!("{}/{}/{}/{}", enc(s.s), s.stop as i64, s.table, s.other as u8)).collect();
        format!("{setup}:{}", v.join(","))
    };
    let read = |case: &str, f: &mut dyn FnMut(usize, &[Step<'_>])| {
        let (setup, rest) = case.split_once(':').unwrap();
        let own: Vec<(String, usize, usize, bool)> = rest
            .split(',')
            .map(|x| {
                let q: Vec<&str> = x.split('/').collect();
                (dec(q[0]), q[1].parse::<i64>().unwrap() as usize, q[2].parse().unwrap(), q[3] == "1")
            })
            .collect();
        let steps: Vec<Step<'_>> = own.iter().map(|x| Step { s: &x.0, stop: x.1, table: x.2, other: x.3 }).collect();
        f(setup.parse().unwrap(), &steps);
    };
    let sets: [(&str, Vec<String>, Vec<String>, usize); 3] = [
        ("pairs", strings(&alpha, 0, ctx.pick(2, 3, 4)), strings(&alpha, 0, ctx.pick(2, 3, 3)), 2),
        ("triples", strings(&alpha, 0, ctx.pick(1, 2, 2)), strings(&alpha, 0, ctx.pick(1, 2, 2)), 3),
        (
            "tokens",
            strings(&["{o ", "{p ", "{", "}", "x", " ", "\\", "{x}"], 0, ctx.pick(2, 3, 4)),
            sv(&["", "x", "{o x}", "}", "{", "{p {x} }y", "x}{x"]),
            2,
        ),
    ];
    // Tables that share some of their entries, each exchanged for each.
    let from = tabs.len() - shared;
    let words = sv(&["{o x}", "{p x}", "{o", "{x}{q}", "x{q}{p}{o x}", "{{}}{q}{o}"]);
    ctx.explore(
        "exchanged",
        (shared * shared) as u64,
        16,
        ctx.threads,
        |w, i| {
            let (t1, t2) = (from + i as usize / shared, from + i as usize % shared);
            for a in &words {
                for b in &words {
                    for stop in [1, usize::MAX] {
                        for setup in 0..SETUPS {
                            let steps = [
                                Step { s: a, stop, table: t1, other: false },
                                Step { s: b, stop: usize::MAX, table: t2, other: false },
                                Step { s: a, stop: usize::MAX, table: t1, other: false },
                            ];
                            w.case(|| show(setup, &steps), |t| one(t, setup, &steps, 600));
                        }
                    }
                }
            }
        },
        |w, case| read(case, &mut |setup, steps| w.case(|| case.into(), |t| one(t, setup, steps, 600))),
    );
    for (name, first, last, len) in &sets {
        ctx.explore(
            name,
            first.len() as u64,
            16,
            ctx.threads,
            |w, i| {
                let a = &first[i as usize];
                let mids: Vec<&str> = if *len == 3 { first.iter().map(|s| &s[..]).collect() } else { vec![""] };
                for (j, b) in last.iter().enumerate() {
                    for mid in &mids {
                        for stop in [0, 1, 2, usize::MAX] {
                            if stop != usize::MAX && stop > a.len() {
                                continue;
                            }
                            for setup in 0..SETUPS {
                                let h = i as usize * 31 + j * 7 + stop.min(3) * 3 + mid.len();
                                if *len == 3 {
                                    let table = [0, 1][h % 2];
                                    for other in [false, true] {
                                        let steps = [
                                            Step { s: a, stop, table, other: false },
                                            Step { s: mid, stop: [usize::MAX, 0, 1][h % 3], table, other },
                                            Step { s: b, stop: usize::MAX, table, other: false },
                                        ];
                                        w.case(|| show(setup, &steps), |t| one(t, setup, &steps, 600));
                                    }
                                    continue;
                                }
                                // The same table throughout, another one, another notation.
                                for k in 0..4 {
                                    let t1 = [1, 1 + h % (plainly - 1), 1, 0][k];
                                    let t2 = if k == 2 { 2 + h % (plainly - 2) } else { t1 };
                                    let steps = [Step { s: a, stop, table: t1, other: false }, Step { s: b, stop: usize::MAX, table: t2, other: k == 3 }];
                                    w.case(|| show(setup, &steps), |t| one(t, setup, &steps, 600));
                                }
                            }
                        }
                        if w.stopped() {
                            return;
                        }
                    }
                }
            },
            |w, case| read(case, &mut |setup, steps| w.case(|| case.into(), |t| one(t, setup, steps, 600))),
        );
    }

    // Very many parses.
    let words = sv(&["", "x", "{o x}", "}", "{p {x} ", "{a\\} {b}}c"]);
    let turns: &[usize] = ctx.pick(&[20], &[300, 600], &[300, 600, 5_000]);
    let many = |t: &mut Tally, setup: usize, a: &str, b: &str, n: usize| -> Verdict {
        let steps: Vec<Step<'_>> = (0..n).map(|i| Step { s: if i + 1 == n { b } else { a }, stop: if i % 3 == 1 { 1 } else { usize::MAX }, table: 1, other: false }).collect();
        t.alive();
        one(t, setup, &steps, 16 * n + 200)
    };
    ctx.explore(
        "many",
        (words.len() * words.len() * turns.len()) as u64,
        64,
        ctx.threads,
        |w, i| {
            let i = i as usize;
            let (a, b, n) = (&words[i % 6], &words[i / 6 % 6], turns[i / 36]);
            for setup in 0..SETUPS {
                w.case(|| format!("{setup}/{}/{}/{n}", enc(a), enc(b)), |t| many(t, setup, a, b, n));
            }
        },
        |w, case| {
            let q: Vec<&str> = case.split('/').collect();
            let (a, b) = (dec(q[1]), dec(q[2]));
            w.case(|| case.into(), |t| many(t, q[0].parse().unwrap(), &a, &b, q[3].parse().unwrap()))
        },
    );

    // With too little supply: as a fresh parser with what was left.
    let scant = |t: &mut Tally, setup: usize, steps: &[Step<'_>], slots: usize| -> Verdict {
        let got = history(setup, steps, tabs, slots)?;
        for (i, st) in steps.iter().enumerate() {
            let full = Step { stop: usize::MAX, ..*st };
            let fresh = history(setup, &[full], tabs, got[i].room)?.pop().unwrap();
            t.traces += 1;
            t.steps += 1;
            starts(st, &fresh, &got[i]).map_err(|m| format!("parse {} of {} on one parser, {} slots left: {m}", i + 1, steps.len(), got[i].room))?;
            t.state = Some(hash64(&(fresh, i, setup)));
        }
        Ok(())
    };
    let words = strings(&["{", "}", "\\", "a", "{o ", "{a b}"], 0, ctx.pick(2, 3, 4));
    let ends = sv(&["a", "{a}", "{o b}", "\\{\\}", "{a\\} {b c}}"]);
    ctx.explore(
        "scant",
        words.len() as u64,
        16,
        ctx.threads,
        |w, i| {
            for b in &ends {
                for slots in 0..14 {
                    for stop in [0, 1, usize::MAX] {
                        for setup in [3, 4, 5] {
                            // Tables whose keys need no slots.
                            for table in [0, 1, 6] {
                                let steps = [
                                    Step { s: &words[i as usize], stop, table, other: false },
                                    Step { s: b, stop: usize::MAX, table, other: false },
                                    Step { s: b, stop: usize::MAX, table, other: false },
                                ];
                                w.case(|| format!("{slots}:{}", show(setup, &steps)), |t| scant(t, setup, &steps, slots));
                            }
                        }
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        },
        |w, case| {
            let (slots, rest) = case.split_once(':').unwrap();
            let slots = slots.parse().unwrap();
            read(rest, &mut |setup, steps| w.case(|| case.into(), |t| scant(t, setup, steps, slots)))
        },
    );

    // After long, deep and failed parses.
    let ends = ["{o x}y", "{a b}", "}", "{"];
    let long = |t: &mut Tally, s: &str, v: usize| -> Verdict {
        for end in ends {
            for stop in [0, 1, usize::MAX] {
                let st = |s, stop| Step { s, stop, table: v % 2, other: false };
                one(t, v % SETUPS, &[st(s, stop), st(end, usize::MAX), st(s, usize::MAX)], 8 * s.len() + 200)?;
            }
        }
        Ok(())
    };
    pumped_v(&ctx, "pumped", &sv(&["", "{a ", "x"]), &strings(BASE2, 1, ctx.pick(1, 2, 2)), &sv(&["", "}", "{"]), ctx.pick(&[9], &[9, 300], &[9, 300, 3_000]), 512, ctx.threads, SETUPS, long);
    nested_v(&ctx, "nested", &sv(&["", "x"]), &sv(&["{", "{a ", "{o ", "{p "]), &sv(&["", "}"]), &sv(&["}", "", " y}"]), &sv(&["", "}"]), ctx.pick(&[5], &[5, 200], &[5, 200, 1_000]), 512, ctx.threads, SETUPS, long);

    // Texts in results.
    inputs_v(&ctx, "reparse", &["{", "}", "\\", " ", "a", "o"], ctx.pick(3, 6, 7), SETUPS, |t, s, v| {
        let table = [1, 2, 1, 1, 2, 1][v];
        reparse(t, v, s, tabs, table)
    });
    let toks = ["{o ", "{p ", "{", "}", "x", " ", "\\", "\\{", "\\}", "{x "];
    inputs_v(&ctx, "reparse_tokens", &toks, ctx.pick(3, 5, 6), 3, |t, s, v| reparse(t, (v * 2 + s.len()) % SETUPS, s, tabs, 1));
    pumped_v(&ctx, "reparse_pumped", &sv(&["", "{o "]), &strings(&["{", "}", "\\", " a"], 1, 3), &sv(&["", "}"]), ctx.pick(&[9], &[9, 60], &[9, 60, 300]), 128, ctx.threads, SETUPS, |t, s, v| reparse(t, v, s, tabs, 1));

    // Within macros.
    let within = |t: &mut Tally, s: &str, v: usize| -> Verdict {
        let p = pieces(s);
        match v {
            0 => nest(t, BoxDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u32>::default(), StrishIterSourceStream::new(p.iter().map(|p| Rc::<str>::from(*p))), s, 2, tabs),
            1 => nest(t, RcDatumAllocator::<TextVec<PosStrish<Arc<String>>>, u32>::default(), CharIterSourceStream::new(s.chars(), to_arc_string), s, 3, tabs),
            2 => {
                let da = ArcDatumAllocator::<TextVec<PosStrish<Rc<String>>>, u32>::default();
                let x: TextVec<PosStrish<Rc<String>>> = chain(posstrishes(&p), &mut ArcDatumAllocator::<TextVec<PosStrish<Rc<String>>>, u32>::default());
                nest(t, da, x.iter(), s, 1, tabs)
            }
            _ => {
                // Given away for good: only for few cases.
                let mem: &'static mut [_] = Box::leak((0..40 * s.len() + 20).map(|_| Datum::EmptyNest).collect());
                let da = SliceDatumAllocator::<TextDatumList<'static, PosStrish<Arc<str>>, u32>, u32>::new(mem);
                nest(t, da, StrishIterSourceStream::new(p.iter().map(|p| Arc::<str>::from(*p))), s, 2, tabs)
            }
        }
    };
    inputs_v(&ctx, "within_slice", &["\\}", "}", "x", " ", "{o ", "{p "], ctx.pick(3, 4, 5), 4, within);
    inputs_v(&ctx, "within", &["{", "}", "\\", " ", "{o ", "{p "], ctx.pick(3, 7, 8), 3, within);
    inputs_v(&ctx, "within_tokens", &["{o ", "{p ", "\\{o ", "\\}", "}", "x"], ctx.pick(3, 7, 8), 3, within);
    nested_v(&ctx, "within_nested", &sv(&["", "x"]), &sv(&["{o ", "{p ", "{o {p ", "\\{o "]), &sv(&["", "x"]), &sv(&["}", "\\}"]), &sv(&["", "}"]), ctx.pick(&[4], &[2, 4, 8, 30], &[2, 4, 8, 30, 100]), 256, ctx.threads, 3, within);
    lengths_v(&ctx, true, 1 << 9, 150, 2, |t, s, v| long(t, s, v * 2));
    ctx.finish()
}
