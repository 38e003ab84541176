//! C05: result texts are views of the source, never copies.

use kul::parser::{BoxDatumAllocator, DatumAllocator, DefaultCharClassifier, OperatorBindings, RcDatumAllocator, SliceDatumAllocator};
use kul::source_stream::StrishIterSourceStream;
use kul::text::chunk::{CharPos, PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, Parser, SourceStream, Text, TextBase, TextConcat};
use kulmc::conv::{clip, Posish};
use kulmc::counting;
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::imp::{chain, cut, hash_bindings, posstrs, DaDatum, Log, Strishy};
use kulmc::model::{self, show, Effect, Kind, Macro, M};
use kulmc::spaces::{inputs_v, lengths_v, pumped_v, slots_v, sv, wide_by, SLOTS, SLOTS_MACROS, UNI};
use kulmc::tables::mac;
use kulmc::words::strings;
use std::rc::Rc;
use std::sync::Arc;

#[global_allocator]
static ALLOC: counting::Counting = counting::Counting;

/// Memory of one character of the source.
#[derive(Clone, Copy, Debug)]
struct Mem {
    addr: usize,
    piece: usize,
    escape: bool,
    last_piece: bool,
}

trait Bytes {
    fn bytes(&self) -> &str;
}
impl Bytes for PosStr<'_> {
    fn bytes(&self) -> &str {
        self.val
    }
}
impl<R: Strishy> Bytes for PosStrish<R> {
    fn bytes(&self) -> &str {
        self.val.as_ref()
    }
}

fn text_mem<TT>(t: &TT, want: &[(char, u32)], mem: &[Mem]) -> Verdict
where
    TT: Text,
    TT::Chunk: Bytes,
{
    let mut k = 0;
    for c in t.iter_chunks() {
        let s = c.bytes();
        if s.is_empty() {
            continue;
        }
        if k > 0 && k < want.len() {
            let (a, b) = (want[k - 1].1 as usize, want[k].1 as usize);
            if b == a + 1 && mem[a].piece == mem[b].piece {
                return Err(format!("chunk break before character {k} although nothing was removed or split there"));
            }
        }
        for (off, ch) in s.char_indices() {
            let Some(&(wc, i)) = want.get(k) else { return Err("text too long".into()) };
            if wc != ch {
                return Err(format!("character {k} is {ch:?}, expected {wc:?}"));
            }
            if s.as_ptr() as usize + off != mem[i as usize].addr {
                return Err(format!("character {k} {ch:?} is not in the source's memory at its place"));
            }
            k += 1;
        }
    }
    if k != want.len() {
        return Err("text too short".into());
    }
    if unbroken(want, mem) && t.iter_chunks().count() != 1 {
        return Err("an empty chunk although nothing was removed or split in or around the text".into());
    }
    Ok(())
}

/// Whether a text gives no reason for any break, not even at its ends.
fn unbroken(want: &[(char, u32)], mem: &[Mem]) -> bool {
    let (Some(a), Some(b)) = (want.first(), want.last()) else { return false };
    let (a, b) = (a.1 as usize, b.1 as usize);
    let piece = mem[a].piece;
    b - a + 1 == want.len()
        && mem[a..=b].iter().all(|m| m.piece == piece && !m.escape)
        && if a > 0 { mem[a - 1].piece == piece && !mem[a - 1].escape } else { piece == 0 }
        && match mem.get(b + 1) {
            Some(m) => m.piece == piece && !m.escape,
            None => mem[b].last_piece,
        }
}

fn form_mem<'d, TT, DR>(d: &'d Datum<TT, u32, DR>, m: &M, mem: &[Mem], out: &mut Vec<(&'d TT, Vec<usize>)>) -> Verdict
where
    TT: Text,
    TT::Chunk: Bytes,
    DR: DerefTryMut<Target = Datum<TT, u32, DR>>,
{
    match (d, m) {
        (Datum::Text(t), M::Text(w)) => {
            text_mem(t, w, mem)?;
            let mut used: Vec<usize> = w.iter().map(|x| mem[x.1 as usize].piece).collect();
            used.dedup();
            out.push((t, used));
            Ok(())
        }
        (Datum::Combination { operator, operands }, M::Comb(b)) => {
            form_mem(&**operator, &b.0, mem, out)?;
            form_mem(&**operands, &b.1, mem, out)
        }
        (Datum::EmptyNest, M::EmptyNest) => Ok(()),
        (Datum::Extra(a), M::Extra(b)) if a == b => Ok(()),
        (_, M::List(l)) => {
            let mut cur = d;
            for x in l {
                let Datum::List { elem, next } = cur else { return Err("list too short".into()) };
                form_mem(&**elem, x, mem, out)?;
                cur = &**next;
            }
            if matches!(cur, Datum::EmptyList) {
                Ok(())
            } else {
                Err("list too long".into())
            }
        }
        _ => Err(format!("form differs from {}", show(m))),
    }
}

/// Parse, check the memory of everything, return the forms.
fn parse_mem<DA, OB, S>(
    t: &mut Tally,
    p: &mut Parser<DefaultCharClassifier, DA, OB>,
    src: S,
    want: &model::Run,
    mem: &[Mem],
) -> Result<Vec<DaDatum<DA>>, String>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA>,
    <DA::TT as Text>::Chunk: Bytes,
    OB: OperatorBindings<DA, CE = u32>,
    S: SourceStream<DA>,
{
    t.steps += want.steps;
    t.traces += 1;
    let mut forms = vec![];
    {
        let mut it = p.parse(src);
        for (k, w) in want.items.iter().enumerate() {
            match (it.next(), w) {
                (Some(Ok(d)), Ok(m)) => {
                    form_mem(&d, m, mem, &mut vec![]).map_err(|e| format!("item {k}: {e}"))?;
                    forms.push(d);
                }
                (Some(Err(_)), Err(_)) => {}
                _ => return Err(format!("item {k} differs in kind")),
            }
        }
        if it.next().is_some() {
            return Err("item after the expected end".into());
        }
    }
    Ok(forms)
}

fn with<DA, F>(mut da: DA, macros: &[Macro], f: F) -> Verdict
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA> + std::hash::Hash + Eq,
    DA::DR: std::hash::Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish,
    F: FnOnce(&mut Parser<DefaultCharClassifier, DA, kulmc::imp::HashB<DA>>) -> Verdict,
{
    let log: Log = Default::default();
    let bindings = hash_bindings(macros, &log, None, &mut da);
    f(&mut Parser { classifier: DefaultCharClassifier, allocator: da, bindings })
}

fn mem_of(pieces: &[&str]) -> Vec<Mem> {
    pieces
        .iter()
        .enumerate()
        .flat_map(|(piece, p)| {
            p.char_indices().map(move |(b, c)| Mem { addr: p.as_ptr() as usize + b, piece, escape: c == '\\', last_piece: piece + 1 == pieces.len() })
        })
        .collect()
}

trait Watch: Strishy {
    fn watch(&self) -> Box<dyn Fn() -> bool>;
    fn whole(&self) -> &str;
}
macro_rules! watch {
    ($($p:ident $t:ty),*) => { $(impl Watch for $p<$t> {
        fn watch(&self) -> Box<dyn Fn() -> bool> {
            let w = $p::downgrade(self);
            Box::new(move || w.strong_count() > 0)
        }
        fn whole(&self) -> &str { &**self }
    })* }
}
watch!(Rc String, Rc Box<str>, Rc str, Arc String, Arc Box<str>, Arc str);

fn stream<R: Watch>(t: &mut Tally, pieces: &[&str], macros: &[Macro], want: &model::Run, lifetimes: bool) -> Verdict {
    type DA<R> = RcDatumAllocator<TextVec<PosStrish<R>>, u32>;
    let mk = || -> Vec<R> { pieces.iter().map(|p| R::mk(p)).collect() };
    let alive_as = |watch: &[Box<dyn Fn() -> bool>], used: &[usize], when: &str| -> Verdict {
        for (i, w) in watch.iter().enumerate() {
            if w() != used.contains(&i) {
                return Err(format!("{when}: source string {i} is {}", if w() { "still alive" } else { "gone" }));
            }
        }
        Ok(())
    };
    with(DA::<R>::default(), macros, |p| {
        // Text made of counted strings.
        let src = mk();
        let mem = mem_of(&src.iter().map(|r| r.whole()).collect::<Vec<_>>());
        let mut c = 0;
        let chunks = src
            .iter()
            .map(|r| {
                let x = PosStrish::new(r.clone(), CharPos(c));
                c += r.whole().chars().count();
                x
            })
            .collect();
        let text: TextVec<PosStrish<R>> = chain(chunks, &mut p.allocator);
        parse_mem(t, p, text.iter(), want, &mem).map_err(|m| format!("text: {m}"))?;
        // Stream of counted strings.
        let v = mk();
        let mem = mem_of(&v.iter().map(|r| r.whole()).collect::<Vec<_>>());
        let watch: Vec<_> = v.iter().map(|r| r.watch()).collect();
        let mut forms = parse_mem(t, p, StrishIterSourceStream::new(v), want, &mem).map_err(|m| format!("stream: {m}"))?;
        if !lifetimes {
            return Ok(());
        }
        let wants: Vec<&M> = want.items.iter().filter_map(|i| i.as_ref().ok()).collect();
        let used = |forms: &[DaDatum<DA<R>>], from: usize| -> Vec<usize> {
            let mut all = vec![];
            for (d, m) in forms.iter().zip(&wants[from..]) {
                let mut o = vec![];
                form_mem(d, m, &mem, &mut o).unwrap();
                all.extend(o.into_iter().flat_map(|x| x.1));
            }
            all
        };
        alive_as(&watch, &used(&forms, 0), "after the stream was dropped")?;
        // Each single text as the only survivor.
        let mut texts: Vec<(TextVec<PosStrish<R>>, Vec<usize>)> = vec![];
        for (d, m) in forms.iter().zip(&wants) {
            let mut o = vec![];
            form_mem(d, m, &mem, &mut o)?;
            texts.extend(o.into_iter().map(|(x, u)| (x.clone(), u)));
        }
        // Forms go one after another, from the front.
        let keep = std::mem::take(&mut texts);
        let mut from = 0;
        {
            let only: Vec<usize> = keep.iter().flat_map(|k| k.1.clone()).collect();
            alive_as(&watch, &only, "with copies of the texts")?;
        }
        texts.extend(keep);
        let mut held: Vec<_> = texts.drain(..).collect();
        while !forms.is_empty() {
            forms.remove(0);
            from += 1;
            let mut u = used(&forms, from);
            u.extend(held.iter().flat_map(|k| k.1.clone()));
            alive_as(&watch, &u, "after dropping forms")?;
        }
        while let Some(last) = held.pop() {
            drop(last);
            let u: Vec<usize> = held.iter().flat_map(|k| k.1.clone()).collect();
            alive_as(&watch, &u, "after dropping texts")?;
        }
        // And forms alone, from the back.
        let v = mk();
        let mem2 = mem_of(&v.iter().map(|r| r.whole()).collect::<Vec<_>>());
        let watch: Vec<_> = v.iter().map(|r| r.watch()).collect();
        let mut forms = parse_mem(t, p, StrishIterSourceStream::new(v), want, &mem2)?;
        while let Some(d) = forms.pop() {
            drop(d);
            let mut all = vec![];
            for (d, m) in forms.iter().zip(&wants) {
                let mut o = vec![];
                form_mem(d, m, &mem2, &mut o)?;
                all.extend(o.into_iter().flat_map(|x| x.1));
            }
            alive_as(&watch, &all, "after dropping later forms")?;
        }
        Ok(())
    })
}

fn borrowed(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro], want: &model::Run) -> Verdict {
    let mem = mem_of(pieces);
    with(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, |p| {
        let text: TextVec<PosStr<'_>> = chain(posstrs(s, pieces), &mut p.allocator);
        parse_mem(t, p, text.iter(), want, &mem).map(drop)
    })
    .map_err(|m| format!("borrowed: {m}"))?;
    let n = s.len();
    if n > 400 {
        return Ok(());
    }
    let mut slots: Vec<_> = (0..n * 4 + 40).map(|_| Datum::EmptyNest).collect();
    with(SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut slots), macros, |p| {
        let text: TextDatumList<'_, PosStr<'_>, u32> = chain(posstrs(s, pieces), &mut p.allocator);
        parse_mem(t, p, text.iter(), want, &mem).map(drop)
    })
    .map_err(|m| format!("borrowed, linked text: {m}"))
}

fn layout(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro], want: &model::Run, all_kinds: bool, life: bool) -> Verdict {
    let name = |k: &'static str| move |m: String| format!("{k} pieces {}: {m}", clip(format!("{pieces:?}")));
    borrowed(t, s, pieces, macros, want).map_err(name(""))?;
    stream::<Rc<str>>(t, pieces, macros, want, life).map_err(name("Rc<str>"))?;
    if all_kinds {
        stream::<Rc<String>>(t, pieces, macros, want, life).map_err(name("Rc<String>"))?;
        stream::<Rc<Box<str>>>(t, pieces, macros, want, life).map_err(name("Rc<Box<str>>"))?;
        stream::<Arc<String>>(t, pieces, macros, want, life).map_err(name("Arc<String>"))?;
        stream::<Arc<Box<str>>>(t, pieces, macros, want, life).map_err(name("Arc<Box<str>>"))?;
        stream::<Arc<str>>(t, pieces, macros, want, life).map_err(name("Arc<str>"))?;
    }
    Ok(())
}

fn cuts(t: &mut Tally, s: &str, macros: &[Macro], all_kinds: bool) -> Verdict {
    let want = model::parse_str(s, macros);
    let n = s.chars().count();
    for mask in 0..1u64 << n.saturating_sub(1) {
        let p = cut(s, mask);
        layout(t, s, &p, macros, &want, all_kinds, true)?;
    }
    if n <= 4 {
        // Empty strings between.
        let p: Vec<&str> = cut(s, u64::MAX).into_iter().flat_map(|x| ["", x, ""]).collect();
        stream::<Rc<str>>(t, &p, macros, &want, true).map_err(|m| format!("pieces {p:?}: {m}"))?;
    }
    t.state = Some(hash64(&(&want.items, n)));
    Ok(())
}

fn sized(t: &mut Tally, s: &str, macros: &[Macro], sizes: &[usize], life: bool) -> Verdict {
    let want = model::parse_str(s, macros);
    let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let n = at.len() - 1;
    for &z in sizes {
        let mut p = vec![];
        let mut i = 0;
        while i < n {
            let j = (i + z).min(n);
            p.push(&s[at[i]..at[j]]);
            i = j;
        }
        t.alive();
        layout(t, s, &p, macros, &want, false, life)?;
    }
    t.state = Some(hash64(&(&want.items, n)));
    Ok(())
}

/// Parsing one long text must not request memory of the order of its length.
fn no_copy(t: &mut Tally, s: &str, k: usize) -> Verdict {
    let limit = (s.len() / 4) as u64;
    with(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), &[], |p| {
        let text = TextVec::<PosStr<'_>>::from_str(s);
        let b = counting::bytes();
        let n = p.parse(text.iter()).count();
        let used = counting::bytes() - b;
        if used > limit {
            return Err(format!("{used} bytes requested while parsing {} bytes of borrowed text ({n} items)", s.len()));
        }
        Ok(())
    })?;
    fn strish<R: Strishy>(s: &str, limit: u64) -> Verdict {
        with(BoxDatumAllocator::<TextVec<PosStrish<R>>, u32>::default(), &[], |p| {
            let v = vec![R::mk(s)];
            let b = counting::bytes();
            let n = p.parse(StrishIterSourceStream::new(v.into_iter())).count();
            let used = counting::bytes() - b;
            if used > limit {
                return Err(format!("{used} bytes requested while parsing a counted string of {} bytes ({n} items)", s.len()));
            }
            Ok(())
        })
    }
    strish::<Rc<String>>(s, limit)?;
    strish::<Rc<Box<str>>>(s, limit)?;
    strish::<Rc<str>>(s, limit)?;
    strish::<Arc<String>>(s, limit)?;
    strish::<Arc<Box<str>>>(s, limit)?;
    strish::<Arc<str>>(s, limit)?;
    t.traces += 7;
    t.steps += 7;
    t.state = Some(hash64(&(s.len(), k)));
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C05");
    let tabs = vec![
        vec![],
        vec![mac(model::mtext("o"), Kind::Operative, Effect::Operands), mac(model::mtext("p"), Kind::Applicative, Effect::Wrap)],
    ];
    let alpha = ["{", "}", "\\", " ", "λ", "o"];
    inputs_v(&ctx, "cuts", &alpha, ctx.pick(4, 6, 7), 2, |t, s, v| cuts(t, s, &tabs[v], false));
    inputs_v(&ctx, "kinds", &alpha, ctx.pick(3, 5, 5), 2, |t, s, v| cuts(t, s, &tabs[v], true));
    inputs_v(&ctx, "unicode", UNI, ctx.pick(2, 3, 4), 1, |t, s, v| cuts(t, s, &tabs[v], false));
    slots_v(&ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 1, |t, s, v| sized(t, s, &tabs[v], &[100, 1], false));
    slots_v(&ctx, "slots_macros", SLOTS_MACROS, &wide_by(ctx.pick(29, 8, 1)), ctx.threads, 1, |t, s, v| sized(t, s, &tabs[v + 1], &[100, 1], false));
    inputs_v(&ctx, "escapes", &["\\", "{", "}", "𝄞"], ctx.pick(4, 7, 8), 1, |t, s, v| cuts(t, s, &tabs[v], false));
    let toks = ["{o ", "{p ", "{λ ", "}", "λλ", "\\𝄞", " "];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(3, 5, 6), 2, |t, s, v| sized(t, s, &tabs[v], &[100, 2, 1], true));
    let vs = strings(&["{", "}", "\\", " ", "λ", "a"], 1, ctx.pick(1, 3, 3));
    pumped_v(&ctx, "pumped", &sv(&["", "{", "λ", "{o "]), &vs, &sv(&["", "}"]), ctx.pick(&[5], &[5, 20], &[5, 20, 60]), 64, ctx.threads, 2, |t, s, v| sized(t, s, &tabs[v], &[1000, 3, 7], true));
    let vs = sv(&["λ", "{a b}", "\\{", "{o x}", "a b "]);
    pumped_v(&ctx, "huge", &sv(&["", "{a ", "{o "]), &vs, &sv(&["", "}a}"]), ctx.pick(&[], &[70_000], &[70_000, 300_000]), 1024, ctx.threads, 2, |t, s, v| sized(t, s, &tabs[v], &[usize::MAX / 2, 1000], false));
    // No copying: long texts, heads, operands, blanks.
    let us = sv(&["", "{", "{a ", "{{}", "\\{", "{}", "}", "x}"]);
    let vs = sv(&["a", "λ", " ", "ab ", "𝄞"]);
    pumped_v(&ctx, "nocopy", &us, &vs, &sv(&["", "}", "}b", "{x}"]), ctx.pick(&[40_000], &[40_000, 100_000], &[40_000, 1_000_000]), 64, ctx.threads, 1, no_copy);
    lengths_v(&ctx, true, 1 << 11, 300, 1, |t, s, _| sized(t, s, &tabs[1], &[usize::MAX / 2, 64], false));
    ctx.finish()
}
