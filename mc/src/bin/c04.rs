//! C04: every reported position designates the true place in the source.

use kul::parser::{BoxDatumAllocator, DatumAllocator, DefaultCharClassifier, OperatorBindings, SliceDatumAllocator};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{CharPos, PosStr, PosStrish, StrPos};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, Error, Parser, SourceStream, Text, TextBase, TextConcat};
use kulmc::conv::Posish;
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulmc::gappy::Gappy;
use kulmc::imp::{chain, cut, hash_bindings, posstrishes, posstrs, Log, Strishy};
use kulmc::model::{self, show, Effect, Kind, MErr, Macro, M};
use kulmc::spaces::{inputs_v, lengths_v, pumped_v, slots_v, sv, wide_by, SLOTS, SLOTS_MACROS, UNI};
use kulmc::tables::mac;
use kulmc::words::strings;
use std::rc::Rc;
use std::sync::Arc;

/// A place: character index; source string (address, length) and byte offset if known.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct At {
    index: usize,
    src: Option<(usize, usize, usize)>,
}

trait PosView {
    fn at(&self) -> At;
    fn points_at(&self, ch: char) -> bool;
}
impl PosView for StrPos<'_> {
    fn at(&self) -> At {
        At { index: self.char_pos, src: Some((self.src.as_ptr() as usize, self.src.len(), self.byte_pos)) }
    }
    fn points_at(&self, ch: char) -> bool {
        self.src.get(self.byte_pos..).is_some_and(|s| s.starts_with(ch))
    }
}
impl PosView for CharPos {
    fn at(&self) -> At {
        At { index: self.0, src: None }
    }
    fn points_at(&self, _: char) -> bool {
        true
    }
}
trait ChunkView {
    fn at(&self) -> At;
    fn text(&self) -> &str;
}
impl ChunkView for PosStr<'_> {
    fn at(&self) -> At {
        self.pos.at()
    }
    fn text(&self) -> &str {
        self.val
    }
}
impl<R: Strishy> ChunkView for PosStrish<R> {
    fn at(&self) -> At {
        self.pos.at()
    }
    fn text(&self) -> &str {
        self.val.as_ref()
    }
}

/// Check one text against the expected characters and places.
fn text_at<TT>(t: &TT, want: &[(char, u32)], table: &[At]) -> Verdict
where
    TT: Text,
    TT::Pos: PosView,
    TT::Chunk: ChunkView,
{
    let mut k = 0;
    for it in t.iter() {
        let Some(&(ch, i)) = want.get(k) else { return Err("text too long".into()) };
        if it.ch != ch {
            return Err(format!("character {k} is {:?}, expected {ch:?}", it.ch));
        }
        if it.pos.at() != table[i as usize] {
            return Err(format!("character {k} {ch:?} has position {:?}, its place is {:?}", it.pos.at(), table[i as usize]));
        }
        if !it.pos.points_at(ch) {
            return Err(format!("position of character {k} {ch:?} does not point at it"));
        }
        k += 1;
    }
    if k != want.len() {
        return Err(format!("text has {k} characters, expected {}", want.len()));
    }
    let mut k = 0;
    for c in t.iter_chunks() {
        let n = c.text().chars().count();
        if n > 0 {
            let Some(&(_, i)) = want.get(k) else { return Err("chunks too long".into()) };
            if c.at() != table[i as usize] {
                return Err(format!("chunk {:?} has position {:?}, its place is {:?}", c.text(), c.at(), table[i as usize]));
            }
        }
        k += n;
    }
    if k != want.len() {
        return Err("chunks do not make up the text".into());
    }
    Ok(())
}

type Texts<'m> = Vec<&'m [(char, u32)]>;

/// Check a form, handing each text to `f`.
fn form_at<'m, TT, DR>(d: &Datum<TT, u32, DR>, m: &'m M, table: &[At], f: &mut dyn FnMut(&TT, &'m [(char, u32)]) -> Verdict) -> Verdict
where
    TT: Text,
    TT::Pos: PosView,
    TT::Chunk: ChunkView,
    DR: DerefTryMut<Target = Datum<TT, u32, DR>>,
{
    match (d, m) {
        (Datum::Text(t), M::Text(w)) => {
            text_at(t, w, table)?;
            f(t, w)
        }
        (Datum::Combination { operator, operands }, M::Comb(b)) => {
            form_at(&**operator, &b.0, table, f)?;
            form_at(&**operands, &b.1, table, f)
        }
        (Datum::EmptyNest, M::EmptyNest) => Ok(()),
        (Datum::Extra(a), M::Extra(b)) if a == b => Ok(()),
        (_, M::List(l)) => {
            let mut cur = d;
            for x in l {
                let Datum::List { elem, next } = cur else { return Err("list too short".into()) };
                form_at(&**elem, x, table, f)?;
                cur = &**next;
            }
            if matches!(cur, Datum::EmptyList) {
                Ok(())
            } else {
                Err("list too long".into())
            }
        }
        _ => Err(format!("form differs from {}", show(m))),
    }
}

fn follow<DA, OB, S>(
    t: &mut Tally,
    p: &mut Parser<DefaultCharClassifier, DA, OB>,
    src: S,
    chars: &[char],
    table: &[At],
    macros: &[Macro],
    depth: usize,
) -> Verdict
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA>,
    <DA::TT as TextBase>::Pos: PosView + Posish,
    <DA::TT as Text>::Chunk: ChunkView,
    OB: OperatorBindings<DA, CE = u32>,
    S: SourceStream<DA>,
{
    let want = model::parse(chars, &model::default_class, macros);
    t.steps += want.steps;
    t.traces += 1;
    let mut got = vec![];
    {
        let mut it = p.parse(src);
        while let Some(r) = it.next() {
            got.push(r);
            if got.len() > want.items.len() {
                return Err("more items than expected".into());
            }
        }
    }
    if got.len() != want.items.len() {
        return Err(format!("{} items, expected {}", got.len(), want.items.len()));
    }
    for (k, (g, w)) in got.iter().zip(&want.items).enumerate() {
        let r = match (g, w) {
            (Ok(d), Ok(m)) => {
                form_at(d, m, table, &mut |text, w| {
                    if depth == 0 || w.is_empty() {
                        return Ok(());
                    }
                    let chars: Vec<char> = w.iter().map(|x| x.0).collect();
                    let sub: Vec<At> = w.iter().map(|x| table[x.1 as usize]).collect();
                    follow(t, p, text.iter(), &chars, &sub, macros, depth - 1).map_err(|m| format!("parsing its text {:?} again: {m}", chars.iter().collect::<String>()))
                })
            }
            (Err(Error::UnbalancedEndChar(pos)), Err(MErr::Unbalanced(i))) => {
                if pos.at() != table[*i as usize] {
                    Err(format!("the error has position {:?}, the delimiter is at {:?}", pos.at(), table[*i as usize]))
                } else {
                    Ok(())
                }
            }
            (Err(_), Err(_)) => Ok(()),
            _ => Err("result and expectation differ in kind".into()),
        };
        r.map_err(|m| format!("item {k}: {m}"))?;
    }
    Ok(())
}

fn with<DA, F>(mut da: DA, macros: &[Macro], f: F) -> Verdict
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA> + std::hash::Hash + Eq,
    DA::DR: std::hash::Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish,
    F: FnOnce(&mut Parser<DefaultCharClassifier, DA, kulmc::imp::HashB<DA>>) -> Verdict,
{
    let log: Log = Default::default();
    let bindings = hash_bindings(macros, &log, None, &mut da);
    f(&mut Parser { classifier: DefaultCharClassifier, allocator: da, bindings })
}

fn strtable(whole: &str, byte0: usize, char0: usize, part: &str) -> Vec<At> {
    part.char_indices()
        .enumerate()
        .map(|(i, (b, _))| At { index: char0 + i, src: Some((whole.as_ptr() as usize, whole.len(), byte0 + b)) })
        .collect()
}

fn tables() -> Vec<Vec<Macro>> {
    vec![
        vec![],
        vec![mac(model::mtext("o"), Kind::Operative, Effect::Operands), mac(model::mtext("p"), Kind::Applicative, Effect::Wrap)],
        vec![mac(model::mtext("o"), Kind::Operative, Effect::Wrap), mac(model::mtext("p"), Kind::Applicative, Effect::Operands)],
    ]
}

/// Everything for one cut of one input.
fn all_sources(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro], depth: usize, strish: bool) -> Verdict {
    let chars: Vec<char> = s.chars().collect();
    let n = chars.len();
    let name = |k: &str| {
        let k = k.to_string();
        move |m: String| format!("{k}, pieces {}: {m}", kulmc::conv::clip(format!("{pieces:?}")))
    };
    // Slices of one string, as vector text and as linked text.
    let table = strtable(s, 0, 0, s);
    with(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, |p| {
        let text: TextVec<PosStr<'_>> = chain(posstrs(s, pieces), &mut p.allocator);
        follow(t, p, text.iter(), &chars, &table, macros, depth)
    })
    .map_err(name("slices of one string"))?;
    let gp: Vec<&str> = pieces.iter().flat_map(|p| ["", p]).collect();
    with(BoxDatumAllocator::<Gappy<PosStr<'_>>, u32>::default(), macros, |p| {
        let text = Gappy(posstrs(s, &gp));
        follow(t, p, text.iter(), &chars, &table, macros, depth.min(1))
    })
    .map_err(name("slices and empty chunks"))?;
    if n <= 2000 {
        let mut slots: Vec<_> = (0..(n + 8) * 16 * (depth + 1)).map(|_| Datum::EmptyNest).collect();
        with(SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut slots), macros, |p| {
            let text: TextDatumList<'_, PosStr<'_>, u32> = chain(posstrs(s, pieces), &mut p.allocator);
            follow(t, p, text.iter(), &chars, &table, macros, depth.min(1))
        })
        .map_err(name("linked slices of one string"))?;
    }
    // A part in the middle of a larger string.
    let big = format!("é}}{s}{{x");
    let table = strtable(&big, 3, 2, s);
    with(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, |p| {
        let mut b = 3;
        let mut c = 2;
        let mut v = vec![];
        for x in pieces {
            v.push(PosStr { val: &big[b..b + x.len()], pos: StrPos { src: &big, byte_pos: b, char_pos: c } });
            b += x.len();
            c += x.chars().count();
        }
        let text: TextVec<PosStr<'_>> = chain(v, &mut p.allocator);
        follow(t, p, text.iter(), &chars, &table, macros, depth)
    })
    .map_err(name("part of a larger string"))?;
    // Independent strings, each numbered from its own start.
    let own: Vec<String> = pieces.iter().map(|p| p.to_string()).collect();
    let table: Vec<At> = own.iter().flat_map(|p| strtable(p, 0, 0, p)).collect();
    with(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, |p| {
        let text: TextVec<PosStr<'_>> = chain(own.iter().map(|x| PosStr::from(&x[..])).collect(), &mut p.allocator);
        follow(t, p, text.iter(), &chars, &table, macros, depth)
    })
    .map_err(name("independent strings"))?;
    if pieces.len() < 2 {
        with(BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), macros, |p| {
            let text = TextVec::<PosStr<'_>>::from_str(s);
            follow(t, p, text.iter(), &chars, &strtable(s, 0, 0, s), macros, depth)
        })
        .map_err(name("text from string"))?;
    }
    if strish {
        strish_sources::<Rc<String>>(t, s, &chars, pieces, macros, depth).map_err(name("Rc<String>"))?;
        strish_sources::<Arc<str>>(t, s, &chars, pieces, macros, depth).map_err(name("Arc<str>"))?;
    }
    Ok(())
}

fn strish_sources<R: Strishy>(t: &mut Tally, s: &str, chars: &[char], pieces: &[&str], macros: &[Macro], depth: usize) -> Verdict {
    type DA<R> = BoxDatumAllocator<TextVec<PosStrish<R>>, u32>;
    let table: Vec<At> = (0..chars.len()).map(|index| At { index, src: None }).collect();
    with(DA::<R>::default(), macros, |p| {
        let text: TextVec<PosStrish<R>> = chain(posstrishes::<R>(pieces), &mut p.allocator);
        follow(t, p, text.iter(), chars, &table, macros, depth)
    })
    .map_err(|m| format!("text: {m}"))?;
    // Chunks that number their characters in their own way.
    let odd: Vec<At> = pieces.iter().enumerate().flat_map(|(k, p)| (0..p.chars().count()).map(move |i| At { index: 1000 * (k + 1) + i, src: None })).collect();
    with(DA::<R>::default(), macros, |p| {
        let ch = pieces.iter().enumerate().map(|(k, x)| PosStrish::new(R::mk(x), CharPos(1000 * (k + 1)))).collect();
        let text: TextVec<PosStrish<R>> = chain(ch, &mut p.allocator);
        follow(t, p, text.iter(), chars, &odd, macros, depth)
    })
    .map_err(|m| format!("offset text: {m}"))?;
    // Chunks and texts made from strings alone.
    if chars.len() < 5 {
        let own: Vec<At> = pieces.iter().flat_map(|p| (0..p.chars().count()).map(|index| At { index, src: None })).collect();
        with(DA::<R>::default(), macros, |p| {
            let text: TextVec<PosStrish<R>> = chain(pieces.iter().map(|x| PosStrish::from(*x)).collect(), &mut p.allocator);
            follow(t, p, text.iter(), chars, &own, macros, depth)
        })
        .map_err(|m| format!("chunks from strings: {m}"))?;
    }
    if pieces.len() < 2 {
        with(DA::<R>::default(), macros, |p| {
            let text = TextVec::<PosStrish<R>>::from_str(s);
            follow(t, p, text.iter(), chars, &table, macros, depth)
        })
        .map_err(|m| format!("text from string: {m}"))?;
    }
    with(DA::<R>::default(), macros, |p| {
        let v: Vec<R> = pieces.iter().flat_map(|x| [R::mk(x), R::mk("")]).collect();
        follow(t, p, StrishIterSourceStream::new(v.into_iter()), chars, &table, macros, depth)
    })
    .map_err(|m| format!("stream: {m}"))?;
    with(DA::<R>::default(), macros, |p| follow(t, p, CharIterSourceStream::new(s.chars(), R::conv), chars, &table, macros, depth))
        .map_err(|m| format!("characters: {m}"))
}

fn cuts(t: &mut Tally, s: &str, macros: &[Macro], depth: usize) -> Verdict {
    let n = s.chars().count();
    for mask in 0..1u64 << n.saturating_sub(1) {
        all_sources(t, s, &cut(s, mask), macros, depth, true)?;
    }
    t.state = Some(hash64(&(s, macros.len())));
    Ok(())
}

fn sized(t: &mut Tally, s: &str, macros: &[Macro], sizes: &[usize]) -> Verdict {
    let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let n = at.len() - 1;
    for &z in sizes {
        let mut p = vec![];
        let mut i = 0;
        while i < n {
            let j = (i + z).min(n);
            p.push(&s[at[i]..at[j]]);
            i = j;
        }
        t.alive();
        all_sources(t, s, &p, macros, 1, true).map_err(|m| format!("pieces of {z}: {m}"))?;
    }
    t.state = Some(hash64(&(s, macros.len())));
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C04");
    let tabs = tables();
    let alpha = ["{", "}", "\\", " ", "λ", "o"];
    inputs_v(&ctx, "cuts", &alpha, ctx.pick(4, 5, 6), 2, |t, s, v| cuts(t, s, &tabs[v], 3));
    let alpha = ["{", "}", "\\", " ", "λ", "o", "p"];
    inputs_v(&ctx, "macros", &alpha, ctx.pick(3, 4, 5), 3, |t, s, v| cuts(t, s, &tabs[v], 2));
    inputs_v(&ctx, "unicode", UNI, ctx.pick(2, 3, 4), 1, |t, s, v| cuts(t, s, &tabs[v], 1));
    slots_v(&ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 8, 1)), ctx.threads, 1, |t, s, v| sized(t, s, &tabs[v], &[100, 1]));
    slots_v(&ctx, "slots_macros", SLOTS_MACROS, &wide_by(ctx.pick(29, 25, 1)), ctx.threads, 1, |t, s, v| sized(t, s, &tabs[v + 1], &[100, 1]));
    let esc = ["\\", "{", "}", "𝄞"];
    inputs_v(&ctx, "escapes", &esc, ctx.pick(4, 7, 8), 1, |t, s, v| cuts(t, s, &tabs[v], 3));
    let toks = ["{o ", "{p ", "{λ ", "}", "λ", "\\𝄞", " "];
    inputs_v(&ctx, "pieces", &toks, ctx.pick(3, 5, 6), 3, |t, s, v| sized(t, s, &tabs[v], &[100, 3, 1]));
    let vs = strings(&["{", "}", "\\", " ", "λ", "a"], 1, ctx.pick(1, 3, 3));
    let us = sv(&["", "{", "λ", "{o "]);
    pumped_v(&ctx, "pumped", &us, &vs, &sv(&["", "}"]), ctx.pick(&[5], &[5, 20], &[5, 20, 90]), 64, ctx.threads, 2, |t, s, v| sized(t, s, &tabs[v], &[1000, 2, 3]));
    let vs = sv(&["λ", "}", "{a b}", "\\{", "{o x}", "{}"]);
    pumped_v(&ctx, "huge", &sv(&["", "{a ", "{o "]), &vs, &sv(&["", "}a}"]), ctx.pick(&[], &[70_000], &[70_000, 300_000]), 1024, ctx.threads, 2, |t, s, v| sized(t, s, &tabs[v], &[usize::MAX / 2, 1000]));
    pumped_v(&ctx, "vast", &sv(&["", "{a "]), &sv(&["λ"]), &sv(&["}a"]), ctx.pick(&[], &[1_100_000], &[1_100_000, 5_000_000]), 1024, 4, 1, |t, s, v| sized(t, s, &tabs[v], &[usize::MAX / 2, 100_000]));
    lengths_v(&ctx, true, 1 << 10, 150, 1, |t, s, _| sized(t, s, &tabs[1], &[64]));
    ctx.finish()
}
