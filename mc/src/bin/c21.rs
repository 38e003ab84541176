//! C21: all ready-made configurations agree on every input.

use kul::common::{inmem, stream};
use kul::parser::{ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, DefaultCharClassifier, RcDatumAllocator, SliceDatumAllocator};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, Parser, SourceStream, Text, TextBase, TextConcat};
use kul_core::premade::inmem as core_inmem;
use kulmc::conv::{calls_diff, item_m, items_diff, to_m, Posish};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::{all_cfgs, chain, cut, cut_every, hash_bindings, pair_bindings, posstrs, run, Cfg, DaDatum, DaError, Log, Outcome, Req};
use kulmc::model::{Item, Macro};
use kulmc::spaces::{inputs_v, lengths_v, nested_v, pumped_v, slots_v, sv, wide_by, BASE2, SLOTS, UNI};
use kulmc::tables;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

/// Every configuration gives what the first one gives.
fn agree(t: &mut Tally, cfgs: &[Cfg], s: &str, pieces: &[&str], macros: &[Macro]) -> Verdict {
    let n = s.chars().count();
    let req = Req { whole: s, pieces, macros, cap: n + 1, hook: None, slots: 16 * n + 128 };
    let mut first: Option<Outcome> = None;
    for c in cfgs {
        let got = run(*c, &req).map_err(|m| format!("{c:?}: {m}"))?;
        t.traces += 1;
        t.steps += n as u64;
        match &first {
            None => first = Some(got),
            Some(f) => {
                if let Some(m) = items_diff(&f.items, &got.items, true) {
                    return Err(format!("{c:?} compared with {:?}: {m}", cfgs[0]));
                }
                if let Some(m) = calls_diff(&f.calls, &got.calls, true) {
                    return Err(format!("{c:?} compared with {:?}: {m}", cfgs[0]));
                }
            }
        }
    }
    t.state = first.map(|f| hash64(&(&f.items, &f.calls)));
    Ok(())
}

/// Keep the results as they are.
fn collect<DA, OB, S>(p: &mut Parser<DefaultCharClassifier, DA, OB>, src: S, cap: usize) -> Result<Vec<Result<DaDatum<DA>, DaError<DA>>>, String>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA>,
    <DA::TT as TextBase>::Pos: Posish,
    OB: kul::parser::OperatorBindings<DA, CE = u32>,
    S: SourceStream<DA>,
{
    let mut v = vec![];
    for r in p.parse(src) {
        v.push(r);
        if v.len() > cap {
            return Err("does not end".into());
        }
    }
    Ok(v)
}

fn parser<DA>(mut da: DA, macros: &[Macro], log: &Log) -> Parser<DefaultCharClassifier, DA, kulmc::imp::HashB<DA>>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish,
{
    let bindings = hash_bindings(macros, log, None, &mut da);
    Parser { classifier: DefaultCharClassifier, allocator: da, bindings }
}

/// Datums of different configurations compare equal exactly when their forms are.
fn cross(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro]) -> Verdict {
    let n = s.chars().count();
    let log: Log = Default::default();
    let room = 8 * n + 64;
    let mut sa: Vec<_> = (0..room).map(|_| Datum::EmptyNest).collect();
    let mut sb: Vec<_> = (0..room).map(|_| Datum::EmptyNest).collect();
    let mut sc: Vec<_> = (0..room).map(|_| Datum::EmptyNest).collect();

    let mut pa = parser(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, &log);
    let xa: TextVec<PosStr<'_>> = chain(posstrs(s, pieces), &mut pa.allocator);
    let a = collect(&mut pa, xa.iter(), n + 1)?;

    let mut pb = parser(RcDatumAllocator::<TextVec<PosStrish<Rc<String>>>, u32>::default(), macros, &log);
    let b = collect(&mut pb, StrishIterSourceStream::new(pieces.iter().map(|p| Rc::new(p.to_string()))), n + 1)?;

    let mut pc = parser(ArcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, u32>::default(), macros, &log);
    let c = collect(&mut pc, CharIterSourceStream::new(s.chars(), kul::source_stream::to_arc_str), n + 1)?;

    let mut pd = parser(SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut sa), macros, &log);
    let xd = chain(posstrs(s, pieces), &mut pd.allocator);
    let d = collect(&mut pd, xd.iter(), n + 1)?;

    let mut pe = parser(SliceDatumAllocator::<TextVec<PosStrish<Rc<Box<str>>>>, u32>::new(&mut sb), macros, &log);
    let e = collect(&mut pe, CharIterSourceStream::new(s.chars(), kul::source_stream::to_rc_box_str), n + 1)?;

    let mut pf = parser(SliceDatumAllocator::<TextDatumList<'_, PosStrish<Arc<String>>, u32>, u32>::new(&mut sc), macros, &log);
    let f = collect(&mut pf, StrishIterSourceStream::new(pieces.iter().rev().rev().map(|p| Arc::new(p.to_string()))), n + 1)?;

    let forms: Vec<Option<_>> = a.iter().map(|r| r.as_ref().ok().map(|d| to_m(d))).collect();
    // Of many items, compare each with its neighbours, the first and the last.
    let far = |i: usize, j: usize, n: usize| n > 40 && i.abs_diff(j) > 2 && j != 0 && j != n - 1;
    macro_rules! pair {
        ($($x:ident $y:ident),*) => { $(
            if $x.len() != $y.len() {
                return Err(format!("{} and {} yield {} and {} items", stringify!($x), stringify!($y), $x.len(), $y.len()));
            }
            for i in 0..$x.len() {
                for j in 0..$y.len() {
                    if far(i, j, $y.len()) {
                        continue;
                    }
                    t.steps += 1;
                    match (&$x[i], &$y[j]) {
                        (Ok(p), Ok(q)) => {
                            if (p == q) != (forms[i] == forms[j]) {
                                return Err(format!("items {i} of {} and {j} of {} compare {}", stringify!($x), stringify!($y), p == q));
                            }
                            if (q == p) != (forms[i] == forms[j]) {
                                return Err(format!("items {j} of {} and {i} of {} compare {}", stringify!($y), stringify!($x), q == p));
                            }
                        }
                        (Err(_), Err(_)) => {}
                        _ if i == j => return Err(format!("item {i} is an error only in one of {} and {}", stringify!($x), stringify!($y))),
                        _ => {}
                    }
                }
            }
            t.traces += 1;
        )* }
    }
    pair!(a a, a b, a c, a d, a e, a f, b b, b c, b d, b e, b f, c c, c d, c e, c f, d d, d e, d f, e e, e f, f f);
    // Errors with the same kind of positions are comparable.
    macro_rules! errs {
        ($($x:ident $y:ident),*) => { $(
            for i in 0..$x.len() {
                for j in 0..$y.len() {
                    if far(i, j, $y.len()) {
                        continue;
                    }
                    if let (Err(p), Err(q)) = (&$x[i], &$y[j]) {
                        let same = item_m(&a[i]) == item_m(&a[j]);
                        if (p == q) != same {
                            return Err(format!("errors {i} of {} and {j} of {} compare {}", stringify!($x), stringify!($y), p == q));
                        }
                    }
                }
            }
        )* }
    }
    errs!(a a, a d, b b, b c, b e, b f, c e, c f, e f, f b);
    Ok(())
}

/// The entry points stop at the first error.
fn entries(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro]) -> Verdict {
    let n = s.chars().count();
    let log: Log = Default::default();
    let b = hash_bindings(macros, &log, None, &mut inmem::DatumAllocator::default());
    let v = inmem::parse_str_with::<u32, u32>(s, b);
    let one: Vec<Item> = v.iter().map(item_m).collect();
    let calls = log.take();
    let b = hash_bindings(macros, &log, None, &mut stream::DatumAllocator::default());
    let v: Vec<String> = pieces.iter().map(|p| p.to_string()).collect();
    let w = stream::parse_stream_with::<_, u32, u32>(v.into_iter(), b);
    let two: Vec<Item> = w.iter().map(item_m).collect();
    if let Some(m) = items_diff(&one, &two, true) {
        return Err(format!("streaming and in-memory entry points: {m}"));
    }
    if let Some(m) = calls_diff(&calls, &log.take(), true) {
        return Err(format!("streaming and in-memory entry points: {m}"));
    }
    let mut mem: Vec<_> = (0..8 * n + 64).map(|_| Datum::EmptyNest).collect();
    let mut p = {
        let mut da = core_inmem::DatumAllocator::<'_, '_, u32>::new(&mut mem);
        let bindings = pair_bindings(macros, &log, None, &mut da);
        Parser { classifier: core_inmem::CharClassifier, allocator: da, bindings }
    };
    let text: core_inmem::Text<'_, '_, u32> = chain(posstrs(s, pieces), &mut p.allocator);
    let mut three = vec![];
    for r in p.parse(text.iter()) {
        three.push(item_m(&r));
        if three.len() > n + 1 || r.is_err() {
            break;
        }
    }
    if let Some(m) = items_diff(&one, &three, true) {
        return Err(format!("core and in-memory: {m}"));
    }
    if let Some(m) = calls_diff(&calls, &log.take(), true) {
        return Err(format!("core and in-memory: {m}"));
    }
    t.traces += 3;
    // The entry points without bindings.
    if macros.is_empty() {
        let v = inmem::parse_str(s);
        let w = stream::parse_stream(pieces.iter().map(|p| p.to_string()).collect::<Vec<_>>().into_iter());
        let mut mem: Vec<_> = (0..8 * n + 64).map(|_| Datum::EmptyNest).collect();
        let mut p = core_inmem::parser_no_bind(&mut mem[..]);
        let text: core_inmem::Text<'_, '_> = chain(posstrs(s, pieces), &mut p.allocator);
        let x: Vec<_> = core_inmem::parse_text_with(&text, &mut p).take(n + 2).collect();
        if v.len() != one.len() || w.len() != one.len() || x.len() != one.len() {
            return Err(format!("entry points without bindings yield {}, {}, {} items, with them {}", v.len(), w.len(), x.len(), one.len()));
        }
        for i in 0..v.len() {
            let ok = match (&v[i], &w[i], &x[i]) {
                (Ok(a), Ok(b), Ok(c)) => a == b && b == c && c == a && one[i] == Ok(to_m(a)),
                (Err(a), Err(b), Err(c)) => a == c && std::mem::discriminant(a) as std::mem::Discriminant<_> == std::mem::discriminant(c) && one[i].is_err() && matches!((a, b), (kul::Error::MissingEndChar, kul::Error::MissingEndChar) | (kul::Error::UnbalancedEndChar(_), kul::Error::UnbalancedEndChar(_))),
                _ => false,
            };
            if !ok {
                return Err(format!("item {i} differs between the entry points without bindings"));
            }
        }
        t.traces += 3;
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C21");
    let cfgs = all_cfgs();
    // One configuration for each kind of source, allocator and text.
    let some: Vec<Cfg> = cfgs.iter().copied().enumerate().filter(|(i, _)| *i == 0 || i % 7 == 3).map(|x| x.1).collect();
    let mut few = tables::few();
    few.extend([7, 13].map(|i| tables::odd()[i].clone()));
    let few = few;
    let one = |t: &mut Tally, s: &str, macros: &[Macro], cfgs: &[Cfg], mask: u64| -> Verdict {
        let p = if s.len() > 64 { cut_every(s, [usize::MAX, 1, 7, 50][mask as usize % 4]) } else { cut(s, mask) };
        let with = |m| format!("{m} (pieces {:?})", p.iter().take(20).collect::<Vec<_>>());
        agree(t, cfgs, s, &p, macros).map_err(with)?;
        cross(t, s, &p, macros).map_err(with)?;
        entries(t, s, &p, macros).map_err(with)
    };
    inputs_v(&ctx, "short", BASE2, ctx.pick(3, 6, 7), 2, |t, s, v| one(t, s, &[], if v == 0 { &cfgs } else { &some }, [0, 0x5555][v]));
    inputs_v(&ctx, "longer", BASE2, ctx.pick(4, 7, 8), 1, |t, s, _| one(t, s, &[], &some, 0x2492));
    inputs_v(&ctx, "unicode", UNI, ctx.pick(2, 3, 3), 3, |t, s, v| one(t, s, &[], &cfgs, [0, 1, u64::MAX][v]));
    slots_v(&ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 8, 1)), ctx.threads, 1, |t, s, _| one(t, s, &[], &some, u64::MAX));
    let chars = ["{", "}", "\\", " ", "o", "p"];
    inputs_v(&ctx, "macros", &chars, ctx.pick(3, 5, 6), few.len(), |t, s, v| one(t, s, &few[v], if v % 2 == 0 { &cfgs } else { &some }, v as u64));
    let toks = ["{o ", "{p ", "{", "}", "x", " ", "\\}", "{x}"];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(3, 5, 6), few.len(), |t, s, v| one(t, s, &few[v], &some, 0x2492));
    let vs = kulmc::words::strings(BASE2, 1, 2);
    pumped_v(&ctx, "pumped", &sv(&["", "{a ", "\\"]), &vs, &sv(&["", "}", "{o"]), ctx.pick(&[9], &[9, 80], &[9, 80, 400]), 128, ctx.threads, 4, |t, s, v| one(t, s, &few[v], &some, v as u64));
    pumped_v(&ctx, "huge", &sv(&["", "{a "]), &sv(&["a", "λ\\}", "{a}", "{o x}"]), &sv(&["", "}"]), ctx.pick(&[], &[3_000], &[9_000]), 1024, ctx.threads, 4, |t, s, v| agree(t, &some, s, &cut_every(s, [usize::MAX, 7, 50, 1000][v]), &few[v]));
    nested_v(&ctx, "nested", &sv(&["", "x"]), &sv(&["{", "{a ", "{{} ", "{o ", "{p "]), &sv(&["", "b"]), &sv(&["}", " }"]), &sv(&["", "y"]), ctx.pick(&[5], &[5, 60, 200], &[5, 60, 200, 500]), 512, ctx.threads, 4, |t, s, v| one(t, s, &few[v], &some, v as u64));
    lengths_v(&ctx, true, 1 << 9, 150, 1, |t, s, _| {
        // A few configurations for each length.
        let k = s.len() % 5;
        let these: Vec<Cfg> = some.iter().copied().enumerate().filter(|(i, _)| *i == 0 || i % 5 == k).map(|x| x.1).collect();
        one(t, s, &few[0], &these, 3)
    });
    ctx.finish()
}
