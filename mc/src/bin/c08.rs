//! C08: running out of datums at any point is a clean, contained error.

use kul::parser::{AllocError, BoxDatumAllocator, DatumAllocator, DefaultCharClassifier, SliceDatumAllocator};
use kul::source_stream::StrishIterSourceStream;
use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, Parser, SourceStream, Text, TextBase, TextConcat};
use kulmc::conv::{item_m, items_diff, Posish};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::fault::{Fault, Plan};
use kulmc::imp::{chain, cut, hash_bindings, posstrs, Log};
use kulmc::model::{self, show_item, Effect, Item, Kind, MErr, Macro, M};
use kulmc::spaces::{inputs_v, nested_v, pumped_v, sv};
use kulmc::tables::{self, mac};
use kulmc::words::strings;
use std::hash::Hash;
use std::rc::Rc;

struct Out {
    items: Vec<Item>,
    failed: usize,
    requests: usize,
}

const AGAIN: &str = "x{a \\}b{}{c}}";

/// Parse under a plan; then parse something else with supply restored.
fn faulty<A, F, S>(inner: A, macros: &[Macro], plan: Plan, cap: usize, again: bool, mk: F) -> Result<Out, String>
where
    A: DatumAllocator<ET = u32>,
    A::TT: TextConcat<Fault<A>> + Hash + Eq,
    A::DR: Hash + Eq,
    <A::TT as Text>::Chunk: From<&'static str>,
    <A::TT as TextBase>::Pos: Posish,
    S: SourceStream<Fault<A>>,
    F: FnOnce(&mut Fault<A>) -> S,
{
    let log: Log = Default::default();
    let mut da = Fault::new(inner);
    let bindings = hash_bindings(macros, &log, None, &mut da);
    let src = mk(&mut da);
    da.count = 0;
    da.plan = plan;
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
    let mut items = vec![];
    {
        let mut it = p.parse(src);
        while let Some(r) = it.next() {
            items.push(item_m(&r));
            if items.len() > cap {
                return Err(format!("more than {cap} items; iteration does not end"));
            }
        }
        if it.next().is_some() || it.next().is_some() {
            return Err("an item after the end".into());
        }
    }
    let (failed, requests) = (p.allocator.failed, p.allocator.count);
    if again {
        p.allocator.plan = Plan::default();
        let t: A::TT = Text::from_str(AGAIN);
        let got: Vec<Item> = p.parse(t.iter()).map(|r| item_m(&r)).collect();
        if let Some(m) = items_diff(&model::parse_str(AGAIN, macros).items, &got, false) {
            return Err(format!("parsing {AGAIN:?} afterwards with supply restored: {m}"));
        }
    }
    Ok(Out { items, failed, requests })
}

/// Compare a run under a plan with the run without failures.
fn judge(base: &Out, item_requests: &[usize], got: &Out, plan: Plan) -> Verdict {
    let first = match (plan.budget, plan.fail) {
        (Some(b), _) => Some(b),
        (None, [a, b]) => [a, b].into_iter().flatten().min(),
    };
    let first = first.filter(|&f| f < base.requests);
    match first {
        None => {
            if let Some(m) = items_diff(&base.items, &got.items, true) {
                return Err(format!("enough supply, yet {m}"));
            }
            if got.failed != 0 || got.requests != base.requests {
                return Err("different number of requests".into());
            }
        }
        Some(f) => {
            // Requests after the last item belong to forms removed by macros.
            let k = item_requests.iter().position(|&c| f < c).unwrap_or(base.items.len());
            if got.items.len() <= k {
                return Err(format!("no item {k}, which ran out of supply"));
            }
            if let Some(m) = items_diff(&base.items[..k], &got.items[..k], true) {
                return Err(format!("before the form that ran out of supply: {m}"));
            }
            if got.items[k] != Err(MErr::Alloc) {
                return Err(format!("item {k} ran out of supply, got {}", show_item(&got.items[k])));
            }
        }
    }
    let allocs = got.items.iter().filter(|i| **i == Err(MErr::Alloc)).count();
    if allocs != got.failed {
        return Err(format!("{} requests failed but {allocs} items are allocation errors", got.failed));
    }
    Ok(())
}

/// A source of a user that takes a datum for everything it accumulates.
struct Asking<S> {
    inner: S,
    pending: bool,
}
impl<S: Iterator> Iterator for Asking<S> {
    type Item = S::Item;
    fn next(&mut self) -> Option<S::Item> {
        self.pending = false;
        self.inner.next()
    }
}
impl<DA: DatumAllocator, S: SourceStream<DA>> SourceStream<DA> for Asking<S> {
    fn peek(&mut self) -> Option<&S::Item> {
        self.inner.peek()
    }
    fn next_accum(&mut self, da: &mut DA) -> Result<Option<S::Item>, AllocError> {
        if self.inner.peek().is_some() {
            if let Err(e) = da.new_datum(Datum::EmptyList) {
                self.next();
                return Err(e);
            }
            self.pending = true;
        }
        self.inner.next_accum(da)
    }
    fn accum_done(&mut self, da: &mut DA) -> Result<DA::TT, AllocError> {
        let text = self.inner.accum_done(da)?;
        if std::mem::take(&mut self.pending) {
            da.new_datum(Datum::EmptyList)?;
        }
        Ok(text)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kd {
    Asking,
    Boxed,
    Linked,
    LinkedStream,
}

fn one(kd: Kd, s: &str, pieces: &[&str], macros: &[Macro], plan: Plan, slots: usize, again: bool) -> Result<Out, String> {
    let cap = s.chars().count() + 1;
    match kd {
        Kd::Boxed => {
            let text: TextVec<PosStr<'_>> = chain(posstrs(s, pieces), &mut BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default());
            faulty(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, plan, cap, again, |_| text.iter())
        }
        Kd::Asking => {
            let text: TextVec<PosStr<'_>> = chain(posstrs(s, pieces), &mut BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default());
            faulty(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, plan, cap, again, |_| Asking { inner: text.iter(), pending: false })
        }
        Kd::Linked => {
            let mut own: Vec<_> = (0..pieces.len()).map(|_| Datum::EmptyNest).collect();
            let mut mem: Vec<_> = (0..slots).map(|_| Datum::EmptyNest).collect();
            type TT<'i, 'd> = TextDatumList<'d, PosStr<'i>, u32>;
            let text: TT<'_, '_> = chain(posstrs(s, pieces), &mut SliceDatumAllocator::<TT<'_, '_>, u32>::new(&mut own));
            faulty(SliceDatumAllocator::<TT<'_, '_>, u32>::new(&mut mem), macros, plan, cap, again, |_| text.iter())
        }
        Kd::LinkedStream => {
            let mut mem: Vec<_> = (0..slots).map(|_| Datum::EmptyNest).collect();
            type TT<'d> = TextDatumList<'d, PosStrish<Rc<str>>, u32>;
            let v: Vec<Rc<str>> = pieces.iter().map(|p| Rc::from(*p)).collect();
            faulty(SliceDatumAllocator::<TT<'_>, u32>::new(&mut mem), macros, plan, cap, again, |_| StrishIterSourceStream::new(v.into_iter()))
        }
    }
}

/// Datums below this one.
fn below(m: &M) -> usize {
    match m {
        M::Comb(b) => 2 + below(&b.0) + below(&b.1),
        M::List(l) => l.iter().map(|x| 2 + below(x)).sum(),
        _ => 0,
    }
}

/// Slots used by the keys of the table, which share the allocator.
fn key_slots(macros: &[Macro]) -> usize {
    macros.iter().map(|m| below(&m.key)).sum()
}

fn every_plan(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro], kd: Kd, pairs: bool) -> Verdict {
    let n = s.chars().count();
    let plenty = 16 * n + 100;
    let base = one(kd, s, pieces, macros, Plan::default(), plenty, false)?;
    let reqs = item_requests(kd, s, pieces, macros, &base, plenty)?;
    if kd == Kd::Boxed && macros.is_empty() && base.items.iter().all(|i| i.is_ok()) {
        let need: usize = base.items.iter().flatten().map(below).sum();
        if need != base.requests {
            return Err(format!("{} datums requested for forms that consist of {need}", base.requests));
        }
    }
    let mut run = |plan: Plan, slots: usize| -> Verdict {
        let got = one(kd, s, pieces, macros, plan, slots, true).map_err(|m| format!("{plan:?}: {m}"))?;
        t.traces += 1;
        t.steps += got.requests as u64;
        judge(&base, &reqs, &got, plan).map_err(|m| format!("{plan:?}: {m}"))
    };
    let r = base.requests;
    for b in 0..=r + 1 {
        run(Plan { budget: Some(b), fail: [None; 2] }, plenty)?;
    }
    for i in 0..r {
        run(Plan { budget: None, fail: [Some(i), None] }, plenty)?;
        if pairs {
            for j in i + 1..r + 1 {
                run(Plan { budget: None, fail: [Some(i), Some(j)] }, plenty)?;
            }
        }
    }
    // A slice that really is that short.
    if kd != Kd::Boxed && kd != Kd::Asking {
        let keys = key_slots(macros);
        for b in 0..=r + 1 {
            let got = one(kd, s, pieces, macros, Plan::default(), b + keys, false).map_err(|m| format!("{b} slots: {m}"))?;
            t.traces += 1;
            t.steps += got.requests as u64;
            judge(&base, &reqs, &got, Plan { budget: Some(b), fail: [None; 2] }).map_err(|m| format!("{b} slots: {m}"))?;
        }
    }
    t.state = Some(hash64(&(&base.items, r)));
    Ok(())
}

/// Number of requests made by the end of each item.
fn item_requests(kd: Kd, s: &str, pieces: &[&str], macros: &[Macro], base: &Out, plenty: usize) -> Result<Vec<usize>, String> {
    // The allocator is only reachable between parses, so iterate a prefix of
    // the items and count.
    let mut v = vec![];
    for k in 0..base.items.len() {
        v.push(prefix_requests(kd, s, pieces, macros, k + 1, plenty));
    }
    Ok(v)
}

fn prefix_requests(kd: Kd, s: &str, pieces: &[&str], macros: &[Macro], k: usize, slots: usize) -> usize {
    fn go<A, S>(inner: A, macros: &[Macro], k: usize, src: S) -> usize
    where
        A: DatumAllocator<ET = u32>,
        A::TT: TextConcat<Fault<A>> + Hash + Eq,
        A::DR: Hash + Eq,
        <A::TT as Text>::Chunk: From<&'static str>,
        <A::TT as TextBase>::Pos: Posish,
        S: SourceStream<Fault<A>>,
    {
        let log: Log = Default::default();
        let mut da = Fault::new(inner);
        let bindings = hash_bindings(macros, &log, None, &mut da);
        da.count = 0;
        let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
        p.parse(src).take(k).for_each(drop);
        p.allocator.count
    }
    match kd {
        Kd::Boxed => {
            let text: TextVec<PosStr<'_>> = chain(posstrs(s, pieces), &mut BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default());
            go(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, k, text.iter())
        }
        Kd::Asking => {
            let text: TextVec<PosStr<'_>> = chain(posstrs(s, pieces), &mut BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default());
            go(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, k, Asking { inner: text.iter(), pending: false })
        }
        Kd::Linked => {
            let mut own: Vec<_> = (0..pieces.len()).map(|_| Datum::EmptyNest).collect();
            let mut mem: Vec<_> = (0..slots).map(|_| Datum::EmptyNest).collect();
            type TT<'i, 'd> = TextDatumList<'d, PosStr<'i>, u32>;
            let text: TT<'_, '_> = chain(posstrs(s, pieces), &mut SliceDatumAllocator::<TT<'_, '_>, u32>::new(&mut own));
            go(SliceDatumAllocator::<TT<'_, '_>, u32>::new(&mut mem), macros, k, text.iter())
        }
        Kd::LinkedStream => {
            let mut mem: Vec<_> = (0..slots).map(|_| Datum::EmptyNest).collect();
            type TT<'d> = TextDatumList<'d, PosStrish<Rc<str>>, u32>;
            let v: Vec<Rc<str>> = pieces.iter().map(|p| Rc::from(*p)).collect();
            go(SliceDatumAllocator::<TT<'_>, u32>::new(&mut mem), macros, k, StrishIterSourceStream::new(v.into_iter()))
        }
    }
}

fn word(t: &mut Tally, s: &str, macros: &[Macro], pairs: bool) -> Verdict {
    every_plan(t, s, &[s], macros, Kd::Boxed, pairs).map_err(|m| format!("boxed: {m}"))?;
    every_plan(t, s, &[s], macros, Kd::Asking, pairs && s.len() < 6).map_err(|m| format!("asking: {m}"))?;
    for pieces in [vec![s], cut(s, u64::MAX), cut(s, 0b10101010)] {
        every_plan(t, s, &pieces, macros, Kd::Linked, pairs).map_err(|m| format!("linked {pieces:?}: {m}"))?;
    }
    let pieces = cut(s, u64::MAX);
    every_plan(t, s, &pieces, macros, Kd::LinkedStream, pairs).map_err(|m| format!("stream {pieces:?}: {m}"))
}

/// Long inputs: only budgets and single failures around a few places.
fn long(t: &mut Tally, s: &str, macros: &[Macro]) -> Verdict {
    let n = s.chars().count();
    for (kd, pieces) in [(Kd::Boxed, vec![s]), (Kd::Linked, vec![s]), (Kd::Linked, cut(s, u64::MAX))] {
        let plenty = 16 * n + 100;
        let base = one(kd, s, &pieces, macros, Plan::default(), plenty, false)?;
        let reqs = item_requests(kd, s, &pieces, macros, &base, plenty)?;
        let r = base.requests;
        for b in 0..=r + 1 {
            for plan in [Plan { budget: Some(b), fail: [None; 2] }, Plan { budget: None, fail: [Some(b), None] }] {
                let got = one(kd, s, &pieces, macros, plan, plenty, true).map_err(|m| format!("{kd:?} {plan:?}: {m}"))?;
                t.traces += 1;
                t.steps += got.requests as u64;
                judge(&base, &reqs, &got, plan).map_err(|m| format!("{kd:?} {plan:?}: {m}"))?;
            }
            t.alive();
        }
        t.state = Some(hash64(&(&base.items, r)));
    }
    Ok(())
}

/// The slice allocator itself: slots handed out once each, rest untouched.
fn slots(t: &mut Tally, n: usize, k: usize, extra: usize) -> Verdict {
    let mut mem: Vec<_> = (0..n).map(|i| Datum::Extra(1000 + i as u32)).collect();
    let lo = mem.as_ptr() as usize;
    let size = std::mem::size_of_val(&mem[..]) / n.max(1);
    let mut da = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut mem);
    let mut got = vec![];
    for i in 0..k {
        match da.new_datum(Datum::Extra(i as u32)) {
            Ok(r) => {
                if i >= n {
                    return Err(format!("slot {i} handed out of {n}"));
                }
                got.push(r);
            }
            Err(AllocError::AllocExhausted) => {
                if i < n {
                    return Err(format!("refused request {i} of {n}"));
                }
            }
        }
    }
    for _ in 0..extra {
        if k >= n && da.new_datum(Datum::EmptyNest).is_ok() {
            return Err("handed out more than its length".into());
        }
    }
    let used = k.min(n);
    let mut seen = std::collections::HashSet::new();
    for (i, r) in got.iter().enumerate() {
        let a = &**r as *const _ as usize;
        if a < lo || a >= lo + size * n || (a - lo) % size != 0 || seen.contains(&a) {
            return Err(format!("slot {i} is not a fresh slot of the slice"));
        }
        seen.insert(a);
        if !matches!(**r, Datum::Extra(x) if x == i as u32) {
            return Err(format!("slot {i} does not hold what was put there"));
        }
    }
    let rest = da.unused();
    let len = rest.as_ref().map_or(0, |r| r.len());
    if len != n - used {
        return Err(format!("{len} slots reported unused of {n} after {used} requests"));
    }
    if let Some(rest) = rest {
        for d in rest.iter() {
            let a = d as *const _ as usize;
            if seen.contains(&a) {
                return Err("a used slot is reported unused".into());
            }
            let i = (a - lo) / size;
            if !matches!(d, Datum::Extra(x) if *x == 1000 + i as u32) {
                return Err("an unused slot was changed".into());
            }
        }
    }
    t.traces += 1;
    t.steps += (k + extra) as u64;
    t.state = Some(hash64(&(n, used)));
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C08");
    let m = |a, b| vec![mac(model::mtext("o"), Kind::Operative, a), mac(model::mtext("p"), Kind::Applicative, b)];
    let tabs = vec![vec![], m(Effect::Wrap, Effect::Wrap), m(Effect::Operands, Effect::Remove), m(Effect::Fail(3), Effect::Operands)];
    let few = tables::few();
    let maxn = ctx.pick(8u64, 140, 260);
    ctx.explore(
        "slots",
        maxn * (maxn + 3),
        8,
        ctx.threads,
        |w, i| {
            let (n, k) = (i / (maxn + 3), i % (maxn + 3));
            w.case(|| format!("{n}:{k}"), |t| slots(t, n as usize, k as usize, 3));
        },
        |w, c| {
            let v: Vec<usize> = c.split(':').map(|x| x.parse().unwrap()).collect();
            w.case(|| c.into(), |t| slots(t, v[0], v[1], 3));
        },
    );
    let sizes: &[usize] = ctx.pick(&[129], &[127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65_535, 65_536, 65_537, 70_000], &[127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65_535, 65_536, 65_537, 70_000, 300_000]);
    ctx.explore(
        "many_slots",
        sizes.len() as u64 * 8,
        8,
        ctx.threads,
        |w, i| {
            let n = sizes[i as usize / 8];
            let k = [0, 1, 2, n / 2, n - 1, n, n + 1, n + n / 2][i as usize % 8];
            w.case(|| format!("{n}:{k}"), |t| slots(t, n, k, 3));
        },
        |w, c| {
            let v: Vec<usize> = c.split(':').map(|x| x.parse().unwrap()).collect();
            w.case(|| c.into(), |t| slots(t, v[0], v[1], 3));
        },
    );
    let alpha = ["{", "}", "\\", " ", "a"];
    inputs_v(&ctx, "short", &alpha, ctx.pick(4, 7, 7), 1, |t, s, v| word(t, s, &tabs[v], true));
    let alpha = ["{", "}", "\\", " ", "o", "p"];
    inputs_v(&ctx, "macros", &alpha, ctx.pick(3, 5, 6), few.len(), |t, s, v| word(t, s, &few[v], true));
    let toks = ["{o ", "{p ", "{a ", "}", "x\\y", "{}"];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(3, 5, 6), tabs.len(), |t, s, v| word(t, s, &tabs[v], true));
    let us = sv(&["", "{a ", "{p ", "{o ", "x}"]);
    let vs = strings(&["a", "\\a", "{b}", "{}", "}", "{p y}", "{o z}"], 1, ctx.pick(1, 2, 2));
    pumped_v(&ctx, "pumped", &us, &vs, &sv(&["", "}", "}{c}"]), ctx.pick(&[4], &[4, 12], &[4, 12, 40]), 64, ctx.threads, tabs.len(), |t, s, v| long(t, s, &tabs[v]));
    let opens = sv(&["{", "{a ", "{p ", "{a b{c}"]);
    nested_v(&ctx, "nested", &sv(&["", "{z}"]), &opens, &sv(&["", "x\\y"]), &sv(&["}", " d}"]), &sv(&["", "{e}"]), ctx.pick(&[3], &[3, 8], &[3, 8, 24]), 64, ctx.threads, 3, |t, s, v| long(t, s, &tabs[v]));
    ctx.finish()
}
