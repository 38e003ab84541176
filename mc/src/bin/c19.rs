//! C19: a head finds the macro bound to an equal datum and nothing otherwise.

use kul::parser::{
    ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, DefaultCharClassifier, EmptyOperatorBindings, HashMapOperatorBindings,
    OperatorBindings, PairOperatorBindings, RcDatumAllocator, SliceDatumAllocator,
};
use kul::source_stream::StrishIterSourceStream;
use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Combiner, Datum, Parser, Text, TextBase, TextConcat};
use kulmc::conv::{calls_diff, items_diff, item_m, Posish};
use kulmc::engine::{dec, enc, hash64, Ctx, Tally, Verdict};
use kulmc::imp::{chain, combiner, cut, drive, from_m, intern, posstrishes, posstrs, BoxComb, DaDatum, HashB, Log, PairB};
use kulmc::spaces::lengths;
use kulmc::model::{self, mtext, show, Effect, Kind, Macro, M};
use kulmc::tables::mac;
use kulmc::words::strings;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::rc::Rc;

/// Build a datum whose texts have one chunk, or one per character.
fn build<DA>(m: &M, split: bool, da: &mut DA) -> DaDatum<DA>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA>,
    <DA::TT as Text>::Chunk: From<&'static str>,
{
    match m {
        M::Text(t) if split => {
            let chunks = t.iter().map(|x| intern(&x.0.to_string()).into()).collect();
            Datum::Text(chain(chunks, da))
        }
        M::Comb(b) => {
            let l = build(&b.0, split, da);
            let r = build(&b.1, split, da);
            Datum::Combination { operator: da.new_datum(l).unwrap(), operands: da.new_datum(r).unwrap() }
        }
        M::List(l) => {
            let mut d = Datum::EmptyList;
            for x in l.iter().rev() {
                let e = build(x, split, da);
                d = Datum::List { elem: da.new_datum(e).unwrap(), next: da.new_datum(d).unwrap() };
            }
            d
        }
        _ => from_m(m, da).unwrap(),
    }
}

/// Keys and heads.
fn universe(deep: bool) -> Vec<M> {
    let c = |a: M, b: M| M::Comb(Box::new((a, b)));
    let l = M::List;
    let mut v = vec![
        mtext(""),
        mtext("a"),
        mtext("b"),
        mtext("ab"),
        M::EmptyNest,
        l(vec![]),
        M::Extra(0),
        M::Extra(1),
        c(mtext("a"), l(vec![])),
        c(mtext("a"), l(vec![mtext("b")])),
        l(vec![mtext("a")]),
        c(M::EmptyNest, l(vec![])),
    ];
    if deep {
        let atoms: Vec<M> = v[..8].to_vec();
        for x in &atoms {
            for y in [l(vec![]), mtext("a"), l(vec![mtext("ab")]), l(vec![M::EmptyNest, mtext("")]), M::EmptyNest] {
                let z = c(x.clone(), y);
                if !v.contains(&z) {
                    v.push(z);
                }
            }
            for z in [l(vec![x.clone()]), l(vec![x.clone(), mtext("a")]), c(c(x.clone(), l(vec![])), l(vec![x.clone()]))] {
                if !v.contains(&z) {
                    v.push(z);
                }
            }
        }
        v.push(mtext("a\u{301}"));
        v.push(mtext("á"));
        v.push(mtext("A"));
        v.push(mtext(" a"));
        v.push(mtext("{a}"));
        v.push(mtext("aa"));
        v.push(mtext("ba"));
        v.push(l(vec![l(vec![]), l(vec![])]));
        v.push(l(vec![l(vec![l(vec![])])]));
    }
    v
}

/// Hashers on which different keys collide often or always.
#[derive(Clone, Copy, Default)]
struct Poor(u64);
struct PoorH(u64, u64);
impl BuildHasher for Poor {
    type Hasher = PoorH;
    fn build_hasher(&self) -> PoorH {
        PoorH(0, self.0)
    }
}
impl Hasher for PoorH {
    fn finish(&self) -> u64 {
        if self.1 == 0 {
            7
        } else {
            self.0 % self.1
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}

fn ident<DA>(c: &Combiner<Box<kul::combiner::OpFn<DA, u32>>, Box<kul::combiner::ApFn<DA, u32>>>, da: &mut DA) -> Option<(bool, u32)>
where
    DA: DatumAllocator<ET = u32>,
{
    let (op, r) = match c {
        Combiner::Operative(f) => (true, f(Datum::EmptyNest, DA::TT::empty(), da)),
        Combiner::Applicative(f) => (false, f(Datum::EmptyNest, Datum::EmptyList, da)),
    };
    match r {
        Ok(Some(Datum::Extra(n))) => Some((op, n)),
        _ => None,
    }
}

fn named<DA: DatumAllocator<ET = u32> + 'static>(id: usize) -> BoxComb<DA> {
    let n = id as u32;
    if id % 2 == 0 {
        Combiner::Operative(Box::new(move |_, _, _| Ok(Some(Datum::Extra(n)))))
    } else {
        Combiner::Applicative(Box::new(move |_, _, _| Ok(Some(Datum::Extra(n)))))
    }
}
fn named_any<DA: DatumAllocator<ET = u32>>(id: usize) -> BoxComb<DA> {
    let n = id as u32;
    if id % 2 == 0 {
        Combiner::Operative(Box::new(move |_, _, _| Ok(Some(Datum::Extra(n)))))
    } else {
        Combiner::Applicative(Box::new(move |_, _, _| Ok(Some(Datum::Extra(n)))))
    }
}

/// Direct lookups of every head in both tables.
fn lookups<DA>(t: &mut Tally, keys: &[&M], heads: &[M], split: (bool, bool), da: &mut DA) -> Verdict
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA> + Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
{
    let pair: PairB<DA> =
        PairOperatorBindings::new(keys.iter().enumerate().map(|(i, k)| (build(k, split.0, da), named_any(i))).collect());
    let mut hash: HashB<DA> = HashMapOperatorBindings::default();
    let mut poor: HashMapOperatorBindings<DA, Box<kul::combiner::OpFn<DA, u32>>, Box<kul::combiner::ApFn<DA, u32>>, u32, Poor> =
        HashMapOperatorBindings::new(HashMap::with_hasher(Poor(keys.len() as u64 % 3)));
    for (i, k) in keys.iter().enumerate() {
        hash.hashmap.insert(build(k, split.0, da), named_any(i));
        poor.hashmap.insert(build(k, split.0, da), named_any(i));
    }
    for h in heads {
        let d = build(h, split.1, da);
        let first = keys.iter().position(|k| *k == h).map(|i| (i % 2 == 0, i as u32));
        let last = keys.iter().rposition(|k| *k == h).map(|i| (i % 2 == 0, i as u32));
        t.traces += 3;
        t.steps += keys.len() as u64;
        for (what, got, want) in [
            ("ordered", OperatorBindings::lookup(&pair, &d), first),
            ("keyed", OperatorBindings::lookup(&hash, &d), last),
            ("keyed (poor hasher)", OperatorBindings::lookup(&poor, &d), last),
        ] {
            let got = got.map(|c| ident(c, da).ok_or("foreign combiner")).transpose()?;
            if got != want {
                return Err(format!("{what} table: head {} finds entry {got:?}, expected {want:?}", show(h)));
            }
        }
    }
    t.state = Some(hash64(&(keys, split)));
    Ok(())
}

fn by_type(t: &mut Tally, ty: usize, keys: &[&M], heads: &[M], split: (bool, bool)) -> Verdict {
    type V = TextVec<PosStr<'static>>;
    type R = TextVec<PosStrish<Rc<str>>>;
    // More than enough for all of them, however they are split.
    fn size(m: &M) -> usize {
        match m {
            M::Text(t) => 2 + t.len(),
            M::Comb(b) => 2 + size(&b.0) + size(&b.1),
            M::List(v) => v.iter().map(|x| 2 + size(x)).sum::<usize>() + 2,
            _ => 2,
        }
    }
    let n = 4096 + 4 * (keys.iter().map(|m| size(m)).sum::<usize>() + heads.iter().map(size).sum::<usize>());
    match ty {
        0 => lookups(t, keys, heads, split, &mut BoxDatumAllocator::<V, u32>::default()),
        1 => lookups(t, keys, heads, split, &mut RcDatumAllocator::<V, u32>::default()),
        2 => lookups(t, keys, heads, split, &mut ArcDatumAllocator::<R, u32>::default()),
        3 => lookups(t, keys, heads, split, &mut BoxDatumAllocator::<R, u32>::default()),
        4 => {
            let mut s: Vec<_> = (0..n).map(|_| Datum::EmptyNest).collect();
            lookups(t, keys, heads, split, &mut SliceDatumAllocator::<V, u32>::new(&mut s))
        }
        _ => {
            let mut s: Vec<_> = (0..n).map(|_| Datum::EmptyNest).collect();
            lookups(t, keys, heads, split, &mut SliceDatumAllocator::<TextDatumList<'_, PosStr<'static>, u32>, u32>::new(&mut s))
        }
    }
}
const TYPES: usize = 6;

/// Changes of a public table between parses.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Back(usize),
    Front(usize),
    Remove(usize),
    Replace(usize),
    Swap,
    Clear,
    Whole(usize),
}

fn op_text(o: &Op) -> String {
    match o {
        Op::Back(k) => format!("b{k}"),
        Op::Front(k) => format!("f{k}"),
        Op::Remove(k) => format!("r{k}"),
        Op::Replace(k) => format!("c{k}"),
        Op::Swap => "s0".into(),
        Op::Clear => "x0".into(),
        Op::Whole(k) => format!("w{k}"),
    }
}
fn op_of(s: &str) -> Op {
    let k = s[1..].parse().unwrap();
    match &s[..1] {
        "b" => Op::Back(k),
        "f" => Op::Front(k),
        "r" => Op::Remove(k),
        "c" => Op::Replace(k),
        "s" => Op::Swap,
        "x" => Op::Clear,
        _ => Op::Whole(k),
    }
}

/// Several parses with one parser of each kind, changing the tables in between.
fn changes<DA>(t: &mut Tally, keys: &[M], src: &'static str, ops: &[Op], mk: impl Fn() -> DA) -> Verdict
where
    DA: DatumAllocator<ET = u32> + 'static,
    DA::TT: TextConcat<DA> + Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish + kul::SourcePosition,
{
    let mut pp: Parser<_, _, PairB<DA>> =
        Parser { classifier: DefaultCharClassifier, allocator: mk(), bindings: PairOperatorBindings::default() };
    let mut hp: Parser<_, _, HashB<DA>> =
        Parser { classifier: DefaultCharClassifier, allocator: mk(), bindings: HashMapOperatorBindings::default() };
    // The model: an ordered list, and a list without duplicates.
    let mut pm: Vec<(usize, usize)> = vec![];
    let mut hm: Vec<(usize, usize)> = vec![];
    let text = DA::TT::from_str(src);
    for (n, o) in ops.iter().enumerate() {
        let key = |k: usize| from_m(&keys[k], &mut mk()).unwrap();
        let hset = |hm: &mut Vec<(usize, usize)>, k: usize| {
            hm.retain(|x| x.0 != k);
            hm.push((k, n));
        };
        let pairs = &mut pp.bindings.pairs;
        let map = &mut hp.bindings.hashmap;
        match *o {
            Op::Back(k) => {
                pairs.push((key(k), named(n)));
                pm.push((k, n));
                map.insert(key(k), named(n));
                hset(&mut hm, k);
            }
            Op::Front(k) => {
                pairs.insert(0, (key(k), named(n)));
                pm.insert(0, (k, n));
                map.entry(key(k)).or_insert(named(n));
                if !hm.iter().any(|x| x.0 == k) {
                    hm.push((k, n));
                }
            }
            Op::Remove(k) => {
                if let Some(i) = pm.iter().position(|x| x.0 == k) {
                    pairs.remove(i);
                    pm.remove(i);
                }
                let was = map.remove(&key(k)).is_some();
                if was != hm.iter().any(|x| x.0 == k) {
                    return Err(format!("removing {} from the keyed table: {was}", show(&keys[k])));
                }
                hm.retain(|x| x.0 != k);
            }
            Op::Replace(k) => {
                if let Some(i) = pm.iter().position(|x| x.0 == k) {
                    pairs[i].1 = named(n);
                    pm[i].1 = n;
                }
                if let Some(c) = map.get_mut(&key(k)) {
                    *c = named(n);
                }
                if let Some(x) = hm.iter_mut().find(|x| x.0 == k) {
                    x.1 = n;
                }
            }
            Op::Swap => {
                pairs.reverse();
                pm.reverse();
                map.shrink_to_fit();
            }
            Op::Clear => {
                pairs.clear();
                pm.clear();
                map.clear();
                hm.clear();
            }
            Op::Whole(k) => {
                pp.bindings = PairOperatorBindings::new(vec![(key(k), named(n))]);
                pm = vec![(k, n)];
                hp.bindings = HashMapOperatorBindings::new([(key(k), named(n))].into_iter().collect());
                hm = vec![(k, n)];
            }
        }
        let table = |v: &[(usize, usize)]| -> Vec<Macro> {
            v.iter()
                .map(|&(k, n)| mac(keys[k].clone(), if n % 2 == 0 { Kind::Operative } else { Kind::Applicative }, Effect::Const(n as u32)))
                .collect()
        };
        let cap = src.len() + 1;
        let want = model::parse_str(src, &table(&pm));
        let got = drive(&mut pp, text.iter(), cap)?;
        if let Some(m) = items_diff(&want.items, &got, false) {
            return Err(format!("ordered table after change {}: {m}", n + 1));
        }
        let want = model::parse_str(src, &table(&hm));
        let got = drive(&mut hp, text.iter(), cap)?;
        if let Some(m) = items_diff(&want.items, &got, false) {
            return Err(format!("keyed table after change {}: {m}", n + 1));
        }
        t.traces += 2;
        t.steps += 2 * want.steps;
    }
    t.state = Some(hash64(&(pm, hm)));
    Ok(())
}

/// A head that is a text written in some way, with one binding.
fn written(t: &mut Tally, key: &M, src: &str, mask: u64) -> Verdict {
    let macros = [mac(key.clone(), Kind::Operative, Effect::Wrap)];
    let want = model::parse_str(src, &macros);
    let pieces = cut(src, mask);
    let cap = src.chars().count() + 1;
    type V<'s> = TextVec<PosStr<'s>>;
    type R = TextVec<PosStrish<Rc<str>>>;
    let log: Log = Default::default();
    let tell = |what: &str, got: &[model::Item], log: &Log| -> Verdict {
        if let Some(m) = items_diff(&want.items, got, true) {
            return Err(format!("{what}: {m}"));
        }
        if let Some(m) = calls_diff(&want.calls, &log.take(), true) {
            return Err(format!("{what}: {m}"));
        }
        Ok(())
    };
    {
        let mut da = BoxDatumAllocator::<V<'_>, u32>::default();
        let mut p: Parser<_, _, HashB<_>> =
            Parser { classifier: DefaultCharClassifier, allocator: BoxDatumAllocator::default(), bindings: Default::default() };
        p.bindings.hashmap.insert(build(key, mask & 1 == 1, &mut da), combiner(0, &macros[0], &log, None));
        let x: V<'_> = chain(posstrs(src, &pieces), &mut p.allocator);
        tell("keyed, in memory", &drive(&mut p, x.iter(), cap)?, &log)?;
    }
    {
        let mut da = RcDatumAllocator::<R, u32>::default();
        let mut p: Parser<_, _, HashB<_>> =
            Parser { classifier: DefaultCharClassifier, allocator: RcDatumAllocator::default(), bindings: Default::default() };
        p.bindings.hashmap.insert(build(key, false, &mut da), combiner(0, &macros[0], &log, None));
        let x = StrishIterSourceStream::new(posstrishes::<Rc<str>>(&pieces).into_iter().map(|_| ()).zip(&pieces).map(|(_, p)| Rc::<str>::from(*p)));
        tell("keyed, streamed", &drive(&mut p, x, cap)?, &log)?;
    }
    {
        let mut slots: Vec<_> = (0..8 * cap + 16).map(|_| Datum::EmptyNest).collect();
        let mut kslots: Vec<_> = (0..64).map(|_| Datum::EmptyNest).collect();
        type L<'s, 'a> = TextDatumList<'a, PosStr<'s>, u32>;
        let mut da = SliceDatumAllocator::<L<'_, '_>, u32>::new(&mut kslots);
        let pairs = vec![(build(key, mask & 1 == 0, &mut da), combiner(0, &macros[0], &log, None))];
        let mut p = Parser {
            classifier: DefaultCharClassifier,
            allocator: SliceDatumAllocator::new(&mut slots),
            bindings: PairOperatorBindings::<_, _, _, _, u32>::new(pairs),
        };
        let x: L<'_, '_> = chain(posstrs(src, &pieces), &mut p.allocator);
        tell("ordered, slots", &drive(&mut p, x.iter(), cap)?, &log)?;
    }
    // Nothing is ever bound in the empty table.
    {
        let want = model::parse_str(src, &[]);
        let mut p = Parser {
            classifier: DefaultCharClassifier,
            allocator: BoxDatumAllocator::<V<'_>, u32>::default(),
            bindings: EmptyOperatorBindings,
        };
        let x: V<'_> = chain(posstrs(src, &pieces), &mut p.allocator);
        let mut items = vec![];
        for r in p.parse(x.iter()) {
            items.push(item_m(&r.map_err(|e| match e {
                kul::Error::UnbalancedEndChar(p) => kul::Error::UnbalancedEndChar(p),
                kul::Error::MissingEndChar => kul::Error::MissingEndChar,
                kul::Error::FailedCombiner(()) => kul::Error::FailedCombiner(u32::MAX),
                kul::Error::FailedAlloc(x) => kul::Error::FailedAlloc(x),
                kul::Error::FailedDerefTryMut => kul::Error::FailedDerefTryMut,
            })));
            if items.len() > cap {
                return Err("does not end".into());
            }
        }
        if let Some(m) = items_diff(&want.items, &items, true) {
            return Err(format!("empty table: {m}"));
        }
    }
    t.traces += 4;
    t.steps += want.steps;
    t.add("macro_calls", want.calls.len() as u64);
    t.state = Some(hash64(&(&want.items, mask)));
    Ok(())
}

/// All ways to write a text in head position: escapes where needed and
/// wherever the bits say.
fn spellings(h: &str) -> Vec<String> {
    let cs: Vec<char> = h.chars().collect();
    (0..1u32 << cs.len())
        .filter_map(|m| {
            let mut s = String::new();
            for (i, &c) in cs.iter().enumerate() {
                let need = model::default_class(c) != model::Class::Other;
                if need && m >> i & 1 == 0 {
                    return None;
                }
                if m >> i & 1 == 1 {
                    s.push('\\');
                }
                s.push(c);
            }
            Some(s)
        })
        .collect()
}

fn main() {
    let ctx = Ctx::new("C19");
    let full = universe(true);
    let small = universe(false);
    let splits = [(false, false), (true, false), (false, true), (true, true)];
    for (fam, u, len) in [("keys", &full, ctx.pick(1, 2, 2)), ("keys_long", &small, ctx.pick(2, 4, 5))] {
        let n = u.len();
        let mut tables: Vec<Vec<usize>> = vec![vec![]];
        let mut last = tables.clone();
        for _ in 0..len {
            last = last.iter().flat_map(|v| (0..n).map(move |k| v.iter().copied().chain([k]).collect())).collect();
            tables.extend(last.iter().cloned());
        }
        let one = |t: &mut Tally, ks: &[usize], ty: usize, sp: usize| {
            let keys: Vec<&M> = ks.iter().map(|&k| &u[k]).collect();
            by_type(t, ty, &keys, u, splits[sp])
        };
        ctx.explore(
            fam,
            tables.len() as u64,
            16,
            ctx.threads,
            |w, i| {
                let ks = &tables[i as usize];
                for ty in 0..TYPES {
                    for sp in 0..4 {
                        let k = ks.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
                        w.case(|| format!("{k}/{ty}/{sp}"), |t| one(t, ks, ty, sp));
                    }
                }
            },
            |w, case| {
                let p: Vec<&str> = case.split('/').collect();
                let ks: Vec<usize> = p[0].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                w.case(|| case.into(), |t| one(t, &ks, p[1].parse().unwrap(), p[2].parse().unwrap()));
            },
        );
    }
    // Tables of many entries, each entry sought, with one key again later or
    // everything again later.
    let mut sizes = lengths(&ctx, 512);
    sizes.retain(|&n| n > 0);
    let entry = |i: usize| match i % 5 {
        0 => M::Comb(Box::new((mtext(&format!("k{i}")), M::List(vec![])))),
        1 => M::List(vec![mtext("k"), mtext(&format!("{i}"))]),
        2 => M::Comb(Box::new((M::EmptyNest, M::List(vec![mtext(&format!("{i}"))])))),
        3 => M::Extra(i as u32),
        _ => mtext(&format!("k{i}")),
    };
    let large = |t: &mut Tally, n: usize, form: usize, ty: usize| {
        let mut heads: Vec<M> = if form % 2 == 0 { (0..n).map(|i| mtext(&format!("k{i}"))).collect() } else { (0..n).map(entry).collect() };
        let all = heads.clone();
        let mut keys: Vec<&M> = all.iter().collect();
        match form / 2 {
            0 => {}
            1 => keys.extend(&all),
            2 => keys.extend([&all[0], &all[n / 2], &all[n - 1]]),
            _ => keys.splice(0..0, [&all[n / 2], &all[n - 1]]).for_each(drop),
        }
        heads.extend([mtext("k"), mtext(&format!("k{n}")), M::EmptyNest, M::List(vec![])]);
        by_type(t, ty, &keys, &heads, splits[(n + ty) % 4])
    };
    ctx.explore(
        "large",
        (sizes.len() * 8 * TYPES) as u64,
        64,
        ctx.threads,
        |w, i| {
            let i = i as usize;
            let (n, form, ty) = (sizes[i / TYPES / 8], i / TYPES % 8, i % TYPES);
            w.case(|| format!("{n}/{form}/{ty}"), |t| large(t, n, form, ty));
        },
        |w, case| {
            let p: Vec<usize> = case.split('/').map(|x| x.parse().unwrap()).collect();
            w.case(|| case.into(), |t| large(t, p[0], p[1], p[2]));
        },
    );
    // Heads of every length.
    let long = |t: &mut Tally, n: usize, ty: usize, sp: usize| {
        let text = |k: usize| "aλ".chars().cycle().take(k).collect::<String>();
        let mut other = text(n);
        other.pop();
        other.push('z');
        let heads = [mtext(&text(n)), mtext(&text(n + 1)), mtext(&text(n - 1)), mtext(&other)];
        by_type(t, ty, &[&heads[0]], &heads, splits[sp])?;
        let list = |k: usize| M::Comb(Box::new((mtext("a"), M::List((0..k).map(|i| if i % 3 == 0 { M::EmptyNest } else { mtext("b") }).collect()))));
        let heads = [list(n), list(n + 1), list(n - 1), M::EmptyNest];
        by_type(t, ty, &[&heads[0]], &heads, splits[sp])
    };
    let mut sizes = lengths(&ctx, 1 << 12);
    sizes.retain(|&n| n > 0);
    ctx.explore(
        "long",
        (sizes.len() * TYPES) as u64,
        64,
        ctx.threads,
        |w, i| {
            for sp in 0..4 {
                let (n, ty) = (sizes[i as usize / TYPES], i as usize % TYPES);
                w.case(|| format!("{n}/{ty}/{sp}"), |t| long(t, n, ty, sp));
            }
        },
        |w, case| {
            let p: Vec<usize> = case.split('/').map(|x| x.parse().unwrap()).collect();
            w.case(|| case.into(), |t| long(t, p[0], p[1], p[2]));
        },
    );
    // Changing the tables.
    let keys = [mtext("a"), M::EmptyNest, M::Comb(Box::new((mtext("a"), M::List(vec![])))), mtext("b c")];
    let src = "{a 1}{{} 2}{{a} 3}{b\\ c 4}{\\a}{{{a}}}{b c}{c {a 5}}x{{a }6}";
    let mut ops = vec![];
    for k in 0..keys.len() {
        ops.extend([Op::Back(k), Op::Front(k), Op::Remove(k), Op::Replace(k), Op::Whole(k)]);
    }
    ops.extend([Op::Swap, Op::Clear]);
    let len = ctx.pick(2, 4, 4);
    let n = ops.len() as u64;
    let one = |t: &mut Tally, o: &[Op], ty: usize| match ty {
        0 => changes(t, &keys, src, o, BoxDatumAllocator::<TextVec<PosStr<'static>>, u32>::default),
        1 => changes(t, &keys, src, o, RcDatumAllocator::<TextVec<PosStr<'static>>, u32>::default),
        _ => changes(t, &keys, src, o, ArcDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u32>::default),
    };
    let show_ops = |o: &[Op], ty: usize| format!("{}/{ty}", o.iter().map(op_text).collect::<Vec<_>>().join(","));
    ctx.explore(
        "changes",
        n.pow(len),
        16,
        ctx.threads,
        |w, i| {
            let mut j = i;
            let o: Vec<Op> = (0..len)
                .map(|_| {
                    let x = ops[(j % n) as usize];
                    j /= n;
                    x
                })
                .collect();
            for ty in 0..3 {
                w.case(|| show_ops(&o, ty), |t| one(t, &o, ty));
            }
        },
        |w, case| {
            let (o, ty) = case.split_once('/').unwrap();
            let o: Vec<Op> = o.split(',').map(op_of).collect();
            w.case(|| case.into(), |t| one(t, &o, ty.parse().unwrap()));
        },
    );
    // Heads that are texts, however written and chunked.
    let texts = strings(&["a", "λ", "{", " ", "\\"], 0, ctx.pick(1, 2, 2));
    let pairs = texts.len() * texts.len();
    let forms: Vec<(M, String)> = (0..pairs)
        .flat_map(|i| {
            let key = mtext(&texts[i / texts.len()]);
            spellings(&texts[i % texts.len()])
                .into_iter()
                .flat_map(move |h| [format!("{{{h} x}}"), format!("{{ {h}}}"), format!("{{{h}{{x}}}}")])
                .map(move |s| (key.clone(), s))
        })
        .collect();
    // Also heads that are nests, chosen by what they contain.
    let heads = ["{a}", "{ a}", "{a }", "{\\a}", "{}", "{ }", "{{}}", "{{a}}", "{a b}", "{a  b}", "{a{}}", "a", "\\a", "\\", "{\\}}"];
    let mut shapes: Vec<(M, String)> = vec![];
    for k in &full {
        for h in heads {
            shapes.push((k.clone(), format!("{{{h} x}}")));
        }
    }
    for (fam, v) in [("written", &forms), ("shapes", &shapes)] {
        let masks = |s: &str| 1u64 << (s.chars().count() as u32 - 1).min(ctx.pick(5, 7, 9));
        ctx.explore(
            fam,
            v.len() as u64,
            16,
            ctx.threads,
            |w, i| {
                let (k, s) = &v[i as usize];
                for mask in 0..masks(s) {
                    w.case(|| format!("{i}/{}/{mask}", enc(s)), |t| written(t, k, s, mask));
                }
            },
            |w, case| {
                let p: Vec<&str> = case.split('/').collect();
                let s = dec(p[1]);
                let k = &v[p[0].parse::<usize>().unwrap()].0;
                w.case(|| case.into(), |t| written(t, k, &s, p[2].parse().unwrap()));
            },
        );
    }
    ctx.finish()
}
