//! C23: datums that cannot be modified are a clean, contained error.

use kul::datum::{DatumArc, DatumRc};
use kul::parser::{AllocError, DatumAllocator, DefaultCharClassifier};
use kul::text::chunk::PosStr;
use kul::text::TextVec;
use kul::{Datum, DerefTryMut, Parser, Text};
use kulmc::conv::{item_m, items_diff};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::{chain, cut, hash_bindings, pair_bindings, posstrs, Log};
use kulmc::model::{self, show_item, Effect, Item, Kind, MErr, Macro};
use kulmc::spaces::{inputs_v, nested_v, pumped_v, sv};
use kulmc::tables::{self, mac};
use kulmc::words::strings;
use std::hash::Hash;
use std::ops::Deref;
use std::rc::{Rc, Weak};
use std::sync::Arc;

type TT<'i> = TextVec<PosStr<'i>>;

/// A reference of a user, which may refuse for its own reasons.
#[derive(PartialEq, Eq, Hash)]
struct Own<'i>(Box<Datum<TT<'i>, u32, Own<'i>>>, bool);
impl<'i> Deref for Own<'i> {
    type Target = Datum<TT<'i>, u32, Own<'i>>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl DerefTryMut for Own<'_> {
    fn get_mut(this: &mut Self) -> Option<&mut Self::Target> {
        if this.1 {
            None
        } else {
            Some(&mut this.0)
        }
    }
}

/// How references of some type come to refuse modification.
trait Hold: Default {
    type DR: DerefTryMut<Target = Datum<Self::TT, u32, Self::DR>> + Hash + Eq;
    type TT: Text;
    fn make(&mut self, d: Datum<Self::TT, u32, Self::DR>, refuse: bool) -> Self::DR;
}
#[derive(Default)]
struct Owns<'i>(std::marker::PhantomData<&'i ()>);
impl<'i> Hold for Owns<'i> {
    type DR = Own<'i>;
    type TT = TT<'i>;
    fn make(&mut self, d: Datum<TT<'i>, u32, Own<'i>>, refuse: bool) -> Own<'i> {
        Own(Box::new(d), refuse)
    }
}
macro_rules! counted {
    ($name:ident, $dr:ident, $kept:ty, $keep:expr) => {
        struct $name<'i>(Vec<$kept>);
        impl Default for $name<'_> {
            fn default() -> Self {
                $name(vec![])
            }
        }
        impl<'i> Hold for $name<'i> {
            type DR = $dr<TT<'i>, u32>;
            type TT = TT<'i>;
            fn make(&mut self, d: Datum<TT<'i>, u32, Self::DR>, refuse: bool) -> Self::DR {
                let r = $dr::new(d);
                if refuse {
                    self.0.push($keep(&r.0));
                }
                r
            }
        }
    };
}
counted!(Strong, DatumRc, Rc<Datum<TT<'i>, u32, DatumRc<TT<'i>, u32>>>, Rc::clone);
counted!(Weakly, DatumRc, Weak<Datum<TT<'i>, u32, DatumRc<TT<'i>, u32>>>, Rc::downgrade);
counted!(Atomic, DatumArc, Arc<Datum<TT<'i>, u32, DatumArc<TT<'i>, u32>>>, Arc::clone);
counted!(AtomicWeakly, DatumArc, std::sync::Weak<Datum<TT<'i>, u32, DatumArc<TT<'i>, u32>>>, Arc::downgrade);

/// Which of the datums refuse.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Plan {
    None,
    One(usize),
    Two(usize, usize),
    From(usize),
    /// One of every so many.
    Every(usize, usize),
}
impl Plan {
    fn refuses(self, i: usize) -> bool {
        match self {
            Plan::None => false,
            Plan::One(a) => i == a,
            Plan::Two(a, b) => i == a || i == b,
            Plan::From(a) => i >= a,
            Plan::Every(n, k) => i % n == k,
        }
    }
}

struct Holding<H> {
    hold: H,
    plan: Plan,
    count: usize,
}
impl<H: Hold> DatumAllocator for Holding<H> {
    type TT = H::TT;
    type ET = u32;
    type DR = H::DR;
    fn new_datum(&mut self, from: Datum<H::TT, u32, H::DR>) -> Result<H::DR, AllocError> {
        let refuse = self.plan.refuses(self.count);
        self.count += 1;
        Ok(self.hold.make(from, refuse))
    }
}

const AGAIN: &str = "x{a \\}b{}{c}}";

/// Items under a plan, and the number of datums made.
fn parse<'i, H: Hold<TT = TT<'i>>>(s: &'i str, pieces: &[&'i str], macros: &[Macro], hash: bool, plan: Plan) -> Result<(Vec<Item>, usize), String> {
    let log: Log = Default::default();
    let mut da = Holding { hold: H::default(), plan: Plan::None, count: 0 };
    let text: TT<'i> = chain(posstrs(s, pieces), &mut da);
    let again: TT<'i> = Text::from_str(AGAIN);
    macro_rules! go {
        ($bindings:expr) => {{
            let bindings = $bindings;
            da.plan = plan;
            da.count = 0;
            let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
            let mut items = vec![];
            let cap = s.chars().count() + 1;
            {
                let mut it = p.parse(text.iter());
                while let Some(r) = it.next() {
                    items.push(item_m(&r));
                    if items.len() > cap {
                        return Err(format!("more than {cap} items; iteration does not end"));
                    }
                }
                if it.next().is_some() || it.next().is_some() {
                    return Err("an item after the end".into());
                }
            }
            let count = p.allocator.count;
            if plan != Plan::None {
                p.allocator.plan = Plan::None;
                let got: Vec<Item> = p.parse(again.iter()).map(|r| item_m(&r)).collect();
                if let Some(m) = items_diff(&model::parse_str(AGAIN, macros).items, &got, false) {
                    return Err(format!("parsing {AGAIN:?} afterwards with nothing refused: {m}"));
                }
            }
            Ok((items, count))
        }};
    }
    if hash {
        go!(hash_bindings(macros, &log, None, &mut da))
    } else {
        go!(pair_bindings(macros, &log, None, &mut da))
    }
}

/// Either nothing is different, or the first difference is the error.
fn judge(s: &str, macros: &[Macro], base: &[Item], got: &[Item], plan: Plan) -> Verdict {
    if items_diff(base, got, true).is_none() {
        return Ok(());
    }
    let k = (0..).find(|&k| k >= base.len() || k >= got.len() || items_diff(&base[k..=k], &got[k..=k], true).is_some()).unwrap();
    if got.get(k) != Some(&Err(MErr::Deref)) {
        return Err(format!("item {k} is {}, neither as otherwise nor the error", got.get(k).map_or("missing".into(), show_item)));
    }
    if got.contains(&Err(MErr::Alloc)) {
        return Err("an allocation error".into());
    }
    if let Plan::One(_) = plan {
        // Nothing is refused any more, so what follows is the parse of some rest.
        let rest = &got[k + 1..];
        let suits = |at: usize| items_diff(&model::parse_str(&s[at..], macros).items, rest, false).is_none();
        if !s.char_indices().map(|x| x.0).chain([s.len()]).any(suits) {
            return Err("what follows the error is not the parse of any rest".into());
        }
    }
    Ok(())
}

fn plans(n: usize, pairs: bool, every: bool) -> Vec<Plan> {
    let mut v = vec![Plan::From(0)];
    for i in 0..n {
        v.push(Plan::One(i));
        if every || i < 8 {
            v.push(Plan::From(i));
        }
        if pairs {
            v.extend((i + 1..n).map(|j| Plan::Two(i, j)));
        }
    }
    for p in [2, 3, 5] {
        v.extend((0..p).map(|k| Plan::Every(p, k)));
    }
    v
}

fn with<'i, H: Hold<TT = TT<'i>>>(t: &mut Tally, s: &'i str, pieces: &[&'i str], macros: &[Macro], hash: bool, pairs: bool) -> Verdict {
    let (base, n) = parse::<H>(s, pieces, macros, hash, Plan::None)?;
    if let Some(m) = items_diff(&model::parse_str(s, macros).items, &base, false) {
        return Err(format!("nothing refused: {m}"));
    }
    for plan in plans(n, pairs, n < 40) {
        let (got, m) = parse::<H>(s, pieces, macros, hash, plan).map_err(|m| format!("{plan:?}: {m}"))?;
        judge(s, macros, &base, &got, plan).map_err(|m| format!("{plan:?}: {m}"))?;
        t.traces += 1;
        t.steps += m as u64;
    }
    t.state = Some(hash64(&(&base, n)));
    Ok(())
}

fn word(t: &mut Tally, s: &str, macros: &[Macro], pairs: bool) -> Verdict {
    with::<Owns<'_>>(t, s, &cut(s, u64::MAX), macros, true, pairs).map_err(|m| format!("a user's reference: {m}"))?;
    with::<Strong<'_>>(t, s, &[s], macros, false, pairs).map_err(|m| format!("counted, held: {m}"))?;
    with::<Weakly<'_>>(t, s, &[s], macros, true, pairs).map_err(|m| format!("counted, held weakly: {m}"))?;
    with::<Atomic<'_>>(t, s, &[s], macros, true, pairs).map_err(|m| format!("atomically counted, held: {m}"))?;
    with::<AtomicWeakly<'_>>(t, s, &[s], macros, false, pairs).map_err(|m| format!("atomically counted, held weakly: {m}"))
}

fn long(t: &mut Tally, s: &str, macros: &[Macro]) -> Verdict {
    t.alive();
    with::<Owns<'_>>(t, s, &[s], macros, true, false).map_err(|m| format!("a user's reference: {m}"))?;
    with::<Weakly<'_>>(t, s, &[s], macros, false, false).map_err(|m| format!("counted, held weakly: {m}"))
}

fn main() {
    let ctx = Ctx::new("C23");
    let m = |a, b| vec![mac(model::mtext("o"), Kind::Operative, a), mac(model::mtext("p"), Kind::Applicative, b)];
    let tabs = vec![vec![], m(Effect::Wrap, Effect::Wrap), m(Effect::Operands, Effect::Remove), m(Effect::Fail(3), Effect::Operands)];
    let few = tables::few();
    let alpha = ["{", "}", "\\", " ", "a"];
    inputs_v(&ctx, "short", &alpha, ctx.pick(4, 7, 8), 1, |t, s, v| word(t, s, &tabs[v], true));
    let alpha = ["{", "}", "\\", " ", "o", "p"];
    inputs_v(&ctx, "macros", &alpha, ctx.pick(3, 5, 6), few.len(), |t, s, v| word(t, s, &few[v], true));
    let toks = ["{o ", "{p ", "{a ", "}", "x\\y", "{}"];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(3, 6, 7), tabs.len(), |t, s, v| word(t, s, &tabs[v], true));
    let us = sv(&["", "{a ", "{p ", "{o ", "x}"]);
    let vs = strings(&["a", "\\a", "{b}", "{}", "}", "{p y}", "{o z}"], 1, ctx.pick(1, 2, 2));
    pumped_v(&ctx, "pumped", &us, &vs, &sv(&["", "}", "}{c}"]), ctx.pick(&[4], &[4, 12], &[4, 12, 40]), 64, ctx.threads, tabs.len(), |t, s, v| long(t, s, &tabs[v]));
    let opens = sv(&["{", "{a ", "{p ", "{a b{c}"]);
    nested_v(&ctx, "nested", &sv(&["", "{z}"]), &opens, &sv(&["", "x\\y"]), &sv(&["}", " d}"]), &sv(&["", "{e}"]), ctx.pick(&[3], &[3, 8], &[3, 8, 24]), 64, ctx.threads, 3, |t, s, v| long(t, s, &tabs[v]));
    ctx.finish()
}
