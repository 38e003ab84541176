//! Running the implementation in all its ready-made configurations.

use crate::conv::{item_m, text_m, to_m, Extraish, Posish};
use crate::engine::Verdict;
use crate::gappy::Gappy;
use crate::model::{Call, Effect, Item, Kind, Macro, M};
use kul::combiner::{ApFn, OpFn};
use kul::parser::{
    AllocError, ArcDatumAllocator, BoxDatumAllocator, CharClassifier, DatumAllocator, DefaultCharClassifier,
    HashMapOperatorBindings, OperatorBindings, PairOperatorBindings, RcDatumAllocator, SliceDatumAllocator,
};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{CharPos, PosStr, PosStrish, RefCntStrish, StrPos};
use kul::text::{TextDatumList, TextVec};
use kul::{Combiner, Datum, Error, Parser, SourcePosition, SourceStream, Text, TextBase, TextConcat};
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

/// Keep one leaked copy of each small string (keys of macro tables).
pub fn intern(s: &str) -> &'static str {
    thread_local! {
        static TAB: RefCell<HashMap<String, &'static str>> = Default::default();
    }
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.insert(s.to_string(), l);
        l
    })
}

pub type Log = Rc<RefCell<Vec<Call>>>;
pub type DaDatum<DA> = Datum<<DA as DatumAllocator>::TT, <DA as DatumAllocator>::ET, <DA as DatumAllocator>::DR>;
pub type DaError<DA> = Error<<<DA as DatumAllocator>::TT as TextBase>::Pos, u32>;
pub type BoxComb<DA> = Combiner<Box<OpFn<DA, u32>>, Box<ApFn<DA, u32>>>;
pub type HashB<DA> = HashMapOperatorBindings<DA, Box<OpFn<DA, u32>>, Box<ApFn<DA, u32>>, u32>;
pub type PairB<DA> = PairOperatorBindings<Vec<(DaDatum<DA>, BoxComb<DA>)>, DA, Box<OpFn<DA, u32>>, Box<ApFn<DA, u32>>, u32>;

/// Build the datum that a model form denotes.
pub fn from_m<DA>(m: &M, da: &mut DA) -> Result<DaDatum<DA>, AllocError>
where
    DA: DatumAllocator<ET = u32>,
    <DA::TT as Text>::Chunk: From<&'static str>,
{
    Ok(match m {
        M::Text(t) => {
            let s: String = t.iter().map(|x| x.0).collect();
            Datum::Text(DA::TT::from_str(intern(&s)))
        }
        M::EmptyNest => Datum::EmptyNest,
        M::Extra(n) => Datum::Extra(*n),
        M::Comb(b) => {
            let operator = from_m(&b.0, da)?;
            let operands = from_m(&b.1, da)?;
            Datum::Combination { operator: da.new_datum(operator)?, operands: da.new_datum(operands)? }
        }
        M::List(l) => {
            let mut d = Datum::EmptyList;
            for x in l.iter().rev() {
                let e = from_m(x, da)?;
                d = Datum::List { elem: da.new_datum(e)?, next: da.new_datum(d)? };
            }
            d
        }
    })
}

/// Called at every macro invocation, before its effect.
pub type Hook = Rc<dyn Fn()>;

pub fn combiner<DA>(id: usize, mac: &Macro, log: &Log, hook: Option<Hook>) -> BoxComb<DA>
where
    DA: DatumAllocator<ET = u32>,
    <DA::TT as TextBase>::Pos: Posish,
{
    let log = log.clone();
    let effect = mac.effect;
    fn apply<DA: DatumAllocator<ET = u32>>(
        effect: Effect,
        head: DaDatum<DA>,
        operands: DaDatum<DA>,
        da: &mut DA,
    ) -> Result<Option<DaDatum<DA>>, DaError<DA>> {
        Ok(Some(match effect {
            Effect::Operands => operands,
            Effect::Head => head,
            Effect::Remove => return Ok(None),
            Effect::Fail(n) => return Err(Error::FailedCombiner(n)),
            Effect::Const(n) => Datum::Extra(n),
            Effect::Wrap => Datum::Combination { operator: da.new_datum(head)?, operands: da.new_datum(operands)? },
            Effect::Nest => Datum::EmptyNest,
            Effect::Empty => Datum::EmptyList,
            Effect::Many => {
                let last = Datum::List { elem: da.new_datum(operands)?, next: da.new_datum(Datum::EmptyList)? };
                Datum::List { elem: da.new_datum(head)?, next: da.new_datum(last)? }
            }
            Effect::Own(0) => return Err(Error::MissingEndChar),
            Effect::Own(1) => return Err(Error::FailedAlloc(AllocError::AllocExhausted)),
            Effect::Own(2) => return Err(Error::FailedDerefTryMut),
            Effect::Own(_) => return Err(Error::UnbalancedEndChar(SourcePosition::empty())),
        }))
    }
    match mac.kind {
        Kind::Operative => Combiner::Operative(Box::new(move |head: DaDatum<DA>, text: DA::TT, da: &mut DA| {
            log.borrow_mut().push(Call { id, kind: Kind::Operative, head: to_m(&head), operands: text_m(&text) });
            if let Some(h) = &hook {
                h();
            }
            apply::<DA>(effect, head, Datum::Text(text), da)
        })),
        Kind::Applicative => Combiner::Applicative(Box::new(move |head: DaDatum<DA>, list: DaDatum<DA>, da: &mut DA| {
            log.borrow_mut().push(Call { id, kind: Kind::Applicative, head: to_m(&head), operands: to_m(&list) });
            if let Some(h) = &hook {
                h();
            }
            apply::<DA>(effect, head, list, da)
        })),
    }
}

pub fn hash_bindings<DA>(macros: &[Macro], log: &Log, hook: Option<Hook>, da: &mut DA) -> HashB<DA>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish,
{
    let mut h = HashMap::new();
    // The model takes the first of equal keys.
    for (id, m) in macros.iter().enumerate().rev() {
        h.insert(from_m(&m.key, da).unwrap(), combiner(id, m, log, hook.clone()));
    }
    HashMapOperatorBindings::new(h)
}

pub fn pair_bindings<DA>(macros: &[Macro], log: &Log, hook: Option<Hook>, da: &mut DA) -> PairB<DA>
where
    DA: DatumAllocator<ET = u32>,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish,
{
    PairOperatorBindings::new(
        macros.iter().enumerate().map(|(id, m)| (from_m(&m.key, da).unwrap(), combiner(id, m, log, hook.clone()))).collect(),
    )
}

#[derive(Debug, Default)]
pub struct Outcome {
    pub items: Vec<Item>,
    pub calls: Vec<Call>,
}

/// Iterate to the end (at most `cap` items) and a little beyond.
pub fn drive<CC, DA, OB, S>(p: &mut Parser<CC, DA, OB>, src: S, cap: usize) -> Result<Vec<Item>, String>
where
    CC: CharClassifier,
    DA: DatumAllocator,
    DA::TT: TextConcat<DA>,
    DA::ET: Extraish,
    <DA::TT as TextBase>::Pos: Posish,
    OB: OperatorBindings<DA, CE = u32>,
    S: SourceStream<DA>,
{
    let mut v = vec![];
    let mut it = p.parse(src);
    while let Some(r) = it.next() {
        v.push(item_m(&r));
        if v.len() > cap {
            return Err(format!("more than {cap} items; iteration does not end"));
        }
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return Err("an item after the end".into());
        }
    }
    Ok(v)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alloc {
    Box,
    Rc,
    Arc,
    Slice,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Str {
    RcString,
    RcBox,
    RcStr,
    ArcString,
    ArcBox,
    ArcStr,
}
pub const STRS: [Str; 6] = [Str::RcString, Str::RcBox, Str::RcStr, Str::ArcString, Str::ArcBox, Str::ArcStr];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Src {
    /// Borrowed text whose chunks are slices of one string.
    PosStr,
    /// Text of counted strings.
    StrishText(Str),
    /// Stream of counted strings.
    Strish(Str),
    /// Stream of characters.
    Chars(Str),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Txt {
    Vec,
    List,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bind {
    Hash,
    Pair,
}

/// A ready-made configuration.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cfg {
    pub src: Src,
    pub alloc: Alloc,
    pub txt: Txt,
    pub bind: Bind,
}

/// All combinations that make sense (the linked text needs the slice allocator).
pub fn all_cfgs() -> Vec<Cfg> {
    let mut v = vec![];
    let mut srcs = vec![Src::PosStr];
    for s in STRS {
        srcs.extend([Src::StrishText(s), Src::Strish(s), Src::Chars(s)]);
    }
    for src in srcs {
        for bind in [Bind::Hash, Bind::Pair] {
            for alloc in [Alloc::Box, Alloc::Rc, Alloc::Arc, Alloc::Slice] {
                v.push(Cfg { src, alloc, txt: Txt::Vec, bind });
            }
            v.push(Cfg { src, alloc: Alloc::Slice, txt: Txt::List, bind });
        }
    }
    v
}

pub fn parse_cfg(s: &str) -> Cfg {
    all_cfgs().into_iter().find(|c| format!("{c:?}") == s).expect("configuration")
}

/// Cut `s` after each character whose bit is set in `mask`.
pub fn cut(s: &str, mask: u64) -> Vec<&str> {
    let mut v = vec![];
    let mut from = 0;
    for (i, (b, c)) in s.char_indices().enumerate() {
        let end = b + c.len_utf8();
        if i < 64 && mask >> i & 1 == 1 && end < s.len() {
            v.push(&s[from..end]);
            from = end;
        }
    }
    v.push(&s[from..]);
    v
}

/// Cut `s` after every `k` characters.
pub fn cut_every(s: &str, k: usize) -> Vec<&str> {
    let mut v = vec![];
    let mut from = 0;
    for (i, (b, c)) in s.char_indices().enumerate() {
        let end = b + c.len_utf8();
        if (i + 1) % k == 0 && end < s.len() {
            v.push(&s[from..end]);
            from = end;
        }
    }
    v.push(&s[from..]);
    v
}

/// Pieces of one source string as positioned slices of it.
pub fn posstrs<'s>(whole: &'s str, pieces: &[&'s str]) -> Vec<PosStr<'s>> {
    let mut b = 0;
    let mut c = 0;
    pieces
        .iter()
        .map(|p| {
            let r = PosStr { val: &whole[b..b + p.len()], pos: StrPos { src: whole, byte_pos: b, char_pos: c } };
            b += p.len();
            c += p.chars().count();
            r
        })
        .collect()
}

pub trait Strishy: RefCntStrish {
    fn mk(s: &str) -> Self;
    fn conv(s: String) -> Self;
}
macro_rules! strishy {
    ($($t:ty => $f:ident),*) => { $(impl Strishy for $t {
        fn mk(s: &str) -> Self { kul::source_stream::$f(s.to_string()) }
        fn conv(s: String) -> Self { kul::source_stream::$f(s) }
    })* }
}
strishy!(Rc<String> => to_rc_string, Rc<Box<str>> => to_rc_box_str, Rc<str> => to_rc_str,
         Arc<String> => to_arc_string, Arc<Box<str>> => to_arc_box_str, Arc<str> => to_arc_str);

pub fn posstrishes<R: Strishy>(pieces: &[&str]) -> Vec<PosStrish<R>> {
    let mut c = 0;
    pieces
        .iter()
        .enumerate()
        .map(|(i, p)| {
            // Both ways to make one.
            let r = PosStrish::new(if i % 2 == 0 { R::from_str(p) } else { R::mk(p) }, CharPos(c));
            c += p.chars().count();
            r
        })
        .collect()
}

/// Concatenate chunks into one text.
pub fn chain<TT, DA>(chunks: Vec<TT::Chunk>, da: &mut DA) -> TT
where
    TT: TextConcat<DA>,
    DA: DatumAllocator<TT = TT>,
{
    let mut t: Option<TT> = None;
    for c in chunks {
        let x = TT::from(c);
        t = Some(match t {
            None => x,
            Some(t) => t.concat(x, da).expect("supply for the source"),
        });
    }
    t.unwrap_or_else(TT::empty)
}

pub struct Req<'a> {
    pub whole: &'a str,
    pub pieces: &'a [&'a str],
    pub macros: &'a [Macro],
    pub cap: usize,
    pub hook: Option<Hook>,
    /// Slots for the slice allocator.
    pub slots: usize,
}

macro_rules! with_bindings {
    ($req:expr, $bind:expr, $da:expr, $log:expr, |$p:ident| $body:expr) => {{
        let mut da = $da;
        match $bind {
            Bind::Hash => {
                let bindings = hash_bindings($req.macros, &$log, $req.hook.clone(), &mut da);
                let mut $p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
                $body
            }
            Bind::Pair => {
                let bindings = pair_bindings($req.macros, &$log, $req.hook.clone(), &mut da);
                let mut $p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
                $body
            }
        }
    }};
}

pub fn run_posstr<DA>(req: &Req<'_>, bind: Bind, da: DA, chunks: Vec<<DA::TT as Text>::Chunk>) -> Result<Outcome, String>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA> + Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish + SourcePosition,
{
    let log: Log = Default::default();
    let items = with_bindings!(req, bind, da, log, |p| {
        let text: DA::TT = chain(chunks, &mut p.allocator);
        drive(&mut p, text.iter(), req.cap)?
    });
    let calls = log.take();
    Ok(Outcome { items, calls })
}

pub fn run_stream<DA, S>(req: &Req<'_>, bind: Bind, da: DA, src: S) -> Result<Outcome, String>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA> + Hash + Eq,
    DA::DR: Hash + Eq,
    <DA::TT as Text>::Chunk: From<&'static str>,
    <DA::TT as TextBase>::Pos: Posish + SourcePosition,
    S: SourceStream<DA>,
{
    let log: Log = Default::default();
    let items = with_bindings!(req, bind, da, log, |p| drive(&mut p, src, req.cap)?);
    let calls = log.take();
    Ok(Outcome { items, calls })
}

#[inline]
fn run_r<R: Strishy>(cfg: Cfg, req: &Req<'_>) -> Result<Outcome, String> {
    type V<R> = TextVec<PosStrish<R>>;
    macro_rules! with_alloc {
        ($da:ident => $e:expr) => {
            match (cfg.alloc, cfg.txt) {
                (Alloc::Box, _) => {
                    let $da = BoxDatumAllocator::<V<R>, u32>::default();
                    $e
                }
                (Alloc::Rc, _) => {
                    let $da = RcDatumAllocator::<V<R>, u32>::default();
                    $e
                }
                (Alloc::Arc, _) => {
                    let $da = ArcDatumAllocator::<V<R>, u32>::default();
                    $e
                }
                (Alloc::Slice, Txt::Vec) => {
                    let mut slots: Vec<_> = (0..req.slots).map(|_| Datum::EmptyNest).collect();
                    let $da = SliceDatumAllocator::<V<R>, u32>::new(&mut slots);
                    $e
                }
                (Alloc::Slice, Txt::List) => {
                    let mut slots: Vec<_> = (0..req.slots).map(|_| Datum::EmptyNest).collect();
                    let $da = SliceDatumAllocator::<TextDatumList<'_, PosStrish<R>, u32>, u32>::new(&mut slots);
                    $e
                }
            }
        };
    }
    match cfg.src {
        Src::StrishText(_) => with_alloc!(da => run_posstr(req, cfg.bind, da, posstrishes::<R>(req.pieces))),
        Src::Strish(_) => {
            let v: Vec<R> = req.pieces.iter().map(|p| R::mk(p)).collect();
            with_alloc!(da => run_stream(req, cfg.bind, da, StrishIterSourceStream::new(v.into_iter())))
        }
        Src::Chars(_) => {
            with_alloc!(da => run_stream(req, cfg.bind, da, CharIterSourceStream::new(req.whole.chars(), R::conv)))
        }
        Src::PosStr => unreachable!(),
    }
}

/// Parse in the given configuration.
// Inlined so that only the checks that use it compile all of it.
#[inline]
pub fn run(cfg: Cfg, req: &Req<'_>) -> Result<Outcome, String> {
    type V<'s> = TextVec<PosStr<'s>>;
    match cfg.src {
        Src::PosStr => {
            let ch = posstrs(req.whole, req.pieces);
            match (cfg.alloc, cfg.txt) {
                (Alloc::Box, _) => run_posstr(req, cfg.bind, BoxDatumAllocator::<V<'_>, u32>::default(), ch),
                (Alloc::Rc, _) => run_posstr(req, cfg.bind, RcDatumAllocator::<V<'_>, u32>::default(), ch),
                (Alloc::Arc, _) => run_posstr(req, cfg.bind, ArcDatumAllocator::<V<'_>, u32>::default(), ch),
                (Alloc::Slice, Txt::Vec) => {
                    let mut slots: Vec<_> = (0..req.slots).map(|_| Datum::EmptyNest).collect();
                    run_posstr(req, cfg.bind, SliceDatumAllocator::<V<'_>, u32>::new(&mut slots), ch)
                }
                (Alloc::Slice, Txt::List) => {
                    let mut slots: Vec<_> = (0..req.slots).map(|_| Datum::EmptyNest).collect();
                    run_posstr(
                        req,
                        cfg.bind,
                        SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut slots),
                        ch,
                    )
                }
            }
        }
        Src::StrishText(r) | Src::Strish(r) | Src::Chars(r) => match r {
            Str::RcString => run_r::<Rc<String>>(cfg, req),
            Str::RcBox => run_r::<Rc<Box<str>>>(cfg, req),
            Str::RcStr => run_r::<Rc<str>>(cfg, req),
            Str::ArcString => run_r::<Arc<String>>(cfg, req),
            Str::ArcBox => run_r::<Arc<Box<str>>>(cfg, req),
            Str::ArcStr => run_r::<Arc<str>>(cfg, req),
        },
    }
}

/// Text of a type with empty chunks in it.
pub fn run_gappy(req: &Req<'_>) -> Result<Outcome, String> {
    let log: Log = Default::default();
    let mut da = BoxDatumAllocator::<Gappy<PosStr<'_>>, u32>::default();
    let bindings = hash_bindings(req.macros, &log, req.hook.clone(), &mut da);
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
    let text = Gappy(posstrs(req.whole, req.pieces));
    let items = drive(&mut p, text.iter(), req.cap)?;
    Ok(Outcome { items, calls: log.take() })
}

/// The plain in-memory boxed configuration on one string.
pub fn run_default(s: &str, macros: &[Macro]) -> Result<Outcome, String> {
    let n = s.chars().count();
    let req = Req { whole: s, pieces: &[s], macros, cap: n + 1, hook: None, slots: 0 };
    run_posstr(&req, Bind::Hash, BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default(), vec![s.into()])
}

pub fn ok(x: Option<String>) -> Verdict {
    match x {
        None => Ok(()),
        Some(m) => Err(m),
    }
}
