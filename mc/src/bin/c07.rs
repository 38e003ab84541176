//! C07: convenience functions return the forms up to the first error and stop there.

use kul::common::{inmem, stream};
use kul::source_stream::StrishIterSourceStream;
use kul::{Combiner, Datum, Error, Text};
use kul_core::premade::inmem as core_inmem;
use kulmc::conv::{calls_diff, err_m, item_m, items_diff, to_m, Posish};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::{cut, from_m, hash_bindings, Log};
use kulmc::model::{mtext, Call, Effect, Item, Kind, MErr, Macro, M};
use kulmc::spaces::{inputs_v, lengths_v, pumped_v, slots_v, sv, wide_by, SLOTS, UNI};
use kulmc::tables::{self, mac};
use kulmc::words::strings;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

type CoreDa<'i, 'a> = core_inmem::DatumAllocator<'i, 'a, u32>;

/// Same errors with the unit type as the macro error.
fn unit_err<P: Posish>(e: &Error<P, ()>) -> MErr {
    match e {
        Error::UnbalancedEndChar(p) => err_m(&Error::<P, u32>::UnbalancedEndChar(p.clone())),
        Error::MissingEndChar => MErr::Missing,
        Error::FailedCombiner(()) => MErr::Macro(u32::MAX),
        Error::FailedAlloc(_) => MErr::Alloc,
        Error::FailedDerefTryMut => MErr::Deref,
    }
}

#[derive(Debug, Default)]
struct Seen {
    items: Vec<Item>,
    calls: Vec<Call>,
    pulls: usize,
    free: usize,
}

fn diff(want: &Seen, got: &Seen, what: &str) -> Verdict {
    let name = |m| format!("{what}: {m}");
    if let Some(m) = items_diff(&want.items, &got.items, true) {
        return Err(name(m + " (expected: what iterating the parser yields up to the first error)"));
    }
    if let Some(m) = calls_diff(&want.calls, &got.calls, true) {
        return Err(name(m));
    }
    if want.pulls != got.pulls {
        return Err(name(format!("{} pieces pulled, iterating up to the first error pulls {}", got.pulls, want.pulls)));
    }
    if want.free != got.free {
        return Err(name(format!("{} slots left, iterating up to the first error leaves {}", got.free, want.free)));
    }
    Ok(())
}

/// Iterate and stop at the first error.
fn until_err<T, I: Iterator<Item = Result<T, E>>, E>(it: I, mut f: impl FnMut(&Result<T, E>)) {
    for r in it {
        f(&r);
        if r.is_err() {
            break;
        }
    }
}

fn inmem_fns(t: &mut Tally, s: &str, macros: &[Macro]) -> Verdict {
    let want = {
        let log: Log = Default::default();
        let b = hash_bindings(macros, &log, None, &mut inmem::DatumAllocator::default());
        let mut p = inmem::parser::<u32, u32>(b);
        let text = inmem::Text::from_str(s);
        let mut items = vec![];
        until_err(p.parse(text.iter()), |r| items.push(item_m(r)));
        Seen { items, calls: log.take(), ..Default::default() }
    };
    let log: Log = Default::default();
    let b = hash_bindings(macros, &log, None, &mut inmem::DatumAllocator::default());
    let v = inmem::parse_str_with::<u32, u32>(s, b);
    let got = Seen { items: v.iter().map(item_m).collect(), calls: log.take(), ..Default::default() };
    diff(&want, &got, "in-memory with bindings")?;
    t.traces += 2;
    t.steps += want.items.len() as u64;
    t.state = Some(hash64(&(&want.items, &want.calls)));
    if macros.is_empty() {
        let v = inmem::parse_str(s);
        let items = v.iter().map(|r| r.as_ref().map(|d| to_m(d)).map_err(|e| unit_err(e))).collect();
        diff(&want, &Seen { items, ..Default::default() }, "in-memory")?;
        t.traces += 1;
    }
    Ok(())
}

fn pieces_iter(pieces: &[&str], pulls: &Rc<Cell<usize>>) -> impl Iterator<Item = String> + 'static {
    let pulls = pulls.clone();
    let v: Vec<String> = pieces.iter().map(|s| s.to_string()).collect();
    let mut it = v.into_iter();
    std::iter::from_fn(move || {
        // Asking beyond the end counts too.
        pulls.set(pulls.get() + 1);
        it.next()
    })
    .fuse()
}

fn stream_fns(t: &mut Tally, pieces: &[&str], macros: &[Macro]) -> Verdict {
    let pulls = Rc::new(Cell::new(0));
    let want = {
        let log: Log = Default::default();
        let b = hash_bindings(macros, &log, None, &mut stream::DatumAllocator::default());
        let mut p = stream::parser::<u32, u32>(b);
        let src = StrishIterSourceStream::new(pieces_iter(pieces, &pulls).map(Rc::new));
        let mut items = vec![];
        until_err(p.parse(src), |r| items.push(item_m(r)));
        Seen { items, calls: log.take(), pulls: pulls.replace(0), ..Default::default() }
    };
    let log: Log = Default::default();
    let b = hash_bindings(macros, &log, None, &mut stream::DatumAllocator::default());
    let v = stream::parse_stream_with::<_, u32, u32>(pieces_iter(pieces, &pulls), b);
    let got = Seen { items: v.iter().map(item_m).collect(), calls: log.take(), pulls: pulls.replace(0), ..Default::default() };
    diff(&want, &got, "stream with bindings")?;
    t.traces += 2;
    t.steps += want.pulls as u64;
    if macros.is_empty() {
        let v = stream::parse_stream(pieces_iter(pieces, &pulls));
        let items = v.iter().map(|r| r.as_ref().map(|d| to_m(d)).map_err(|e| unit_err(e))).collect();
        diff(&want, &Seen { items, pulls: pulls.replace(0), ..Default::default() }, "stream")?;
        t.traces += 1;
    }
    Ok(())
}

/// The core's function, with macros written against its types.
fn core_fn(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro], slots: usize) -> Verdict {
    fn one(s: &str, pieces: &[&str], macros: &[Macro], slots: usize, convenience: bool) -> Result<Seen, String> {
        let log: Rc<RefCell<Vec<Call>>> = Default::default();
        let mut keys: Vec<_> = (0..64).map(|_| Datum::EmptyNest).collect();
        let mut mem: Vec<_> = (0..slots + pieces.len()).map(|_| Datum::EmptyNest).collect();
        // One function per macro; the core takes references to them.
        let ops: Vec<Box<kul::combiner::OpFn<CoreDa<'_, '_>, u32>>> = macros
            .iter()
            .enumerate()
            .map(|(id, m)| {
                let log = log.clone();
                let eff = m.effect;
                let f: Box<kul::combiner::OpFn<CoreDa<'_, '_>, u32>> = Box::new(move |head, text, _da| {
                    log.borrow_mut().push(Call { id, kind: Kind::Operative, head: to_m(&head), operands: kulmc::conv::text_m(&text) });
                    match eff {
                        Effect::Operands => Ok(Some(Datum::Text(text))),
                        Effect::Remove => Ok(None),
                        Effect::Fail(n) => Err(Error::FailedCombiner(n)),
                        Effect::Const(n) => Ok(Some(Datum::Extra(n))),
                        _ => Ok(Some(head)),
                    }
                });
                f
            })
            .collect();
        let aps: Vec<Box<kul::combiner::ApFn<CoreDa<'_, '_>, u32>>> = macros
            .iter()
            .enumerate()
            .map(|(id, m)| {
                let log = log.clone();
                let eff = m.effect;
                let f: Box<kul::combiner::ApFn<CoreDa<'_, '_>, u32>> = Box::new(move |head, list, _da| {
                    log.borrow_mut().push(Call { id, kind: Kind::Applicative, head: to_m(&head), operands: to_m(&list) });
                    match eff {
                        Effect::Operands => Ok(Some(list)),
                        Effect::Remove => Ok(None),
                        Effect::Fail(n) => Err(Error::FailedCombiner(n)),
                        Effect::Const(n) => Ok(Some(Datum::Extra(n))),
                        _ => Ok(Some(head)),
                    }
                });
                f
            })
            .collect();
        let mut key_alloc = CoreDa::new(&mut keys);
        let pairs: Vec<core_inmem::BindingsPair<'_, '_, '_, u32, u32>> = macros
            .iter()
            .enumerate()
            .map(|(id, m)| {
                (
                    from_m(&m.key, &mut key_alloc).unwrap(),
                    match m.kind {
                        Kind::Operative => Combiner::Operative(&*ops[id]),
                        Kind::Applicative => Combiner::Applicative(&*aps[id]),
                    },
                )
            })
            .collect();
        let mut p = core_inmem::parser(&mut mem[..], &pairs[..]);
        let text: core_inmem::Text<'_, '_, u32> = kulmc::imp::chain(kulmc::imp::posstrs(s, pieces), &mut p.allocator);
        let mut items = vec![];
        if convenience {
            let mut it = core_inmem::parse_text_with(&text, &mut p);
            for r in &mut it {
                items.push(item_m(&r));
                if items.len() > s.len() + 2 {
                    return Err("does not end".into());
                }
            }
            for _ in 0..2 {
                if it.next().is_some() {
                    return Err("yields an item after its end".into());
                }
            }
        } else {
            until_err(p.parse(text.iter()), |r| items.push(item_m(r)));
        }
        let free = p.allocator.unused().map_or(0, |u| u.len());
        let calls = log.borrow().clone();
        Ok(Seen { items, calls, pulls: 0, free })
    }
    let want = one(s, pieces, macros, slots, false)?;
    let got = one(s, pieces, macros, slots, true).map_err(|m| format!("core: {m}"))?;
    t.traces += 2;
    t.steps += want.items.len() as u64;
    t.state = Some(hash64(&(&want.items, &want.calls)));
    diff(&want, &got, "core")
}

fn all(t: &mut Tally, s: &str, macros: &[Macro], cuts: bool) -> Verdict {
    inmem_fns(t, s, macros)?;
    let n = s.chars().count();
    stream_fns(t, &[s], macros)?;
    core_fn(t, s, &[s], macros, 4 * n + 4)?;
    if cuts {
        for mask in 0..1u64 << n.saturating_sub(1) {
            let p = cut(s, mask);
            let with = |m| format!("{m} (pieces {p:?})");
            stream_fns(t, &p, macros).map_err(with)?;
            core_fn(t, s, &p, macros, 4 * n + 4).map_err(with)?;
            let gaps: Vec<&str> = p.iter().flat_map(|x| [*x, ""]).collect();
            stream_fns(t, &gaps, macros).map_err(with)?;
        }
        // Running out of slots is an error like any other.
        for k in 0..n {
            core_fn(t, s, &[s], macros, k).map_err(|m| format!("{m} (with {k} slots)"))?;
        }
    } else {
        let p = cut(s, u64::MAX);
        stream_fns(t, &p, macros)?;
    }
    Ok(())
}

fn big(t: &mut Tally, s: &str, macros: &[Macro]) -> Verdict {
    inmem_fns(t, s, macros)?;
    stream_fns(t, &[s], macros)?;
    let p: Vec<&str> = s.split_inclusive('}').collect();
    stream_fns(t, &p, macros)?;
    core_fn(t, s, &[s], macros, 2 * s.len() + 4)
}

fn main() {
    let ctx = Ctx::new("C07");
    let two = |a, b| vec![mac(mtext("o"), Kind::Operative, a), mac(mtext("p"), Kind::Applicative, b)];
    let mut tabs = vec![
        vec![],
        two(Effect::Fail(7), Effect::Const(1)),
        two(Effect::Const(2), Effect::Fail(0)),
        two(Effect::Operands, Effect::Remove),
        two(Effect::Head, Effect::Operands),
    ];
    tabs[4].push(mac(M::EmptyNest, Kind::Applicative, Effect::Fail(5)));
    let alpha = ["{", "}", "\\", " ", "o", "p"];
    inputs_v(&ctx, "cuts", &alpha, ctx.pick(4, 5, 6), tabs.len(), |t, s, v| all(t, s, &tabs[v], true));
    inputs_v(&ctx, "short", &alpha, ctx.pick(5, 7, 8), tabs.len(), |t, s, v| all(t, s, &tabs[v], false));
    inputs_v(&ctx, "unicode", UNI, ctx.pick(2, 3, 4), 1, |t, s, v| all(t, s, &tabs[v], true));
    slots_v(&ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 1, |t, s, v| all(t, s, &tabs[v], false));
    let toks = ["{o}", "{p x}", "{a}", "}", "x", "{", "{}"];
    inputs_v(&ctx, "forms", &toks, ctx.pick(4, 5, 6), tabs.len(), |t, s, v| all(t, s, &tabs[v], false));
    let few = tables::few();
    inputs_v(&ctx, "forms_more", &toks, ctx.pick(3, 5, 6), few.len(), |t, s, v| inmem_fns(t, s, &few[v]));
    let us = strings(&["{o}", "{p}", "}", "x", "{a}"], 0, 2);
    let vs = strings(&["{o}", "{p}", "x", "{a}", "{}"], 1, 2);
    pumped_v(&ctx, "pumped", &us, &vs, &us, ctx.pick(&[7], &[7, 40], &[7, 40, 300]), 64, ctx.threads, tabs.len(), |t, s, v| big(t, s, &tabs[v]));
    pumped_v(&ctx, "huge", &sv(&["", "}"]), &sv(&["{}", "{a}", "x{p}", "x{o}"]), &sv(&["", "}", "{", "}{o}{p}"]), ctx.pick(&[], &[70_000], &[70_000, 200_000]), 1024, ctx.threads, 4, |t, s, v| big(t, s, &tabs[v]));
    lengths_v(&ctx, true, 1 << 11, 300, 2, |t, s, v| big(t, s, &tabs[v]));
    ctx.finish()
}
