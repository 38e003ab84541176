//! C15: long lists, long texts and deep heads are handled without stack growth.
//!
//! Everything long happens on a thread whose stack is far too small for even
//! the smallest frame per element; using it up ends the process, which is
//! taken for a violation once the case alone does so again.

use kul::parser::{ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, DefaultCharClassifier, OperatorBindings, RcDatumAllocator, SliceDatumAllocator};
use kul::source_stream::{to_arc_str, CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, Parser, SourceStream, Text, TextBase, TextConcat};
use kulmc::conv::Posish;
use kulmc::engine::{dec, enc, hash64, Ctx, Tally, Verdict};
use kulmc::gappy::Gappy;
use kulmc::imp::{chain, cut_every, from_m, hash_bindings, pair_bindings, posstrishes, posstrs, DaDatum, Log};
use kulmc::model::{self, mtext, Effect, Kind, Macro, M};
use kulmc::spaces::{pumped_v, sv};
use kulmc::tables::mac;
use kulmc::words::strings;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

/// Frames are much larger without optimization, so that the smaller repetitions
/// used there do as well.
const STACK: usize = 64 << 10;

/// Run on a small stack.
fn small<R>(f: impl FnOnce() -> R) -> R {
    struct Over<T>(T);
    unsafe impl<T> Send for Over<T> {}
    let f = Over(f);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                let f = f;
                Over((f.0)())
            })
            .expect("thread")
            .join()
    });
    match r {
        Ok(r) => r.0,
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Small datums that hang off a long spine.
fn sides() -> Vec<M> {
    let c = |a, b| M::Comb(Box::new((a, b)));
    vec![
        M::EmptyNest,
        M::List(vec![]),
        mtext("a"),
        M::Extra(4),
        c(M::EmptyNest, M::List(vec![])),
        M::List(vec![M::EmptyNest, mtext("b")]),
        c(c(mtext("x"), M::List(vec![])), M::List(vec![mtext("y"), M::Extra(1)])),
    ]
}

/// A spine: `heads` combinations, each the head of the one before, then `elems`
/// elements of a list, then the end.  The side at `odd` (from the end) differs.
#[derive(Clone, Copy, Debug)]
struct Spine {
    heads: usize,
    elems: usize,
    side: usize,
    end: usize,
    odd: Option<usize>,
}

fn spine<DA>(sp: &Spine, da: &mut DA) -> DaDatum<DA>
where
    DA: DatumAllocator<ET = u32>,
    <DA::TT as Text>::Chunk: From<&'static str>,
{
    let sides = sides();
    let end = if sp.elems > 0 { M::List(vec![]) } else { sides[sp.end].clone() };
    let mut d = from_m(&end, da).unwrap();
    for i in 0..sp.elems + sp.heads {
        let m = if sp.odd == Some(i) { &sides[(sp.side + 1) % sides.len()] } else { &sides[sp.side] };
        let x = from_m(m, da).unwrap();
        let x = da.new_datum(x).unwrap();
        let y = da.new_datum(d).unwrap();
        d = if i < sp.elems { Datum::List { elem: x, next: y } } else { Datum::Combination { operator: y, operands: x } };
    }
    d
}

const KINDS: usize = 6;

/// Call with a datum of one of the kinds.
macro_rules! with_kind {
    ($k:expr, $sp:expr, |$d:ident| $body:expr) => {
        match $k {
            0 => { let $d = spine($sp, &mut BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default()); $body }
            1 => { let $d = spine($sp, &mut RcDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u32>::default()); $body }
            2 => { let $d = spine($sp, &mut ArcDatumAllocator::<TextVec<PosStrish<Arc<String>>>, u32>::default()); $body }
            3 => {
                let mut mem: Vec<_> = (0..16 * ($sp.heads + $sp.elems + 2)).map(|_| Datum::EmptyNest).collect();
                let $d = spine($sp, &mut SliceDatumAllocator::<TextVec<PosStr<'_>>, u32>::new(&mut mem));
                $body
            }
            4 => {
                let mut mem: Vec<_> = (0..16 * ($sp.heads + $sp.elems + 2)).map(|_| Datum::EmptyNest).collect();
                let $d = spine($sp, &mut SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut mem));
                $body
            }
            _ => { let $d = spine($sp, &mut ArcDatumAllocator::<Gappy<PosStr<'_>>, u32>::default()); $body }
        }
    };
}

/// Compare two spines both ways.
fn compare(t: &mut Tally, kl: usize, kr: usize, a: &Spine, b: &Spine, want: bool) -> Verdict {
    with_kind!(kl, a, |x| {
        with_kind!(kr, b, |y| {
            let got = small(|| (x == y, y == x, x != y));
            t.traces += 2;
            t.steps += (a.heads + a.elems + b.heads + b.elems) as u64;
            t.state = Some(hash64(&(a.heads > 0, a.elems > 0, a.side, a.end, b.odd, b.heads, b.elems, kl, kr)));
            if got != (want, want, !want) {
                return Err(format!("comparisons of {a:?} and {b:?} give {got:?}"));
            }
            Ok(())
        })
    })
}

/// Parse all of it, and use the results' texts, on the small stack.
fn consume<DA, OB, S>(da: DA, make: &dyn Fn(&mut DA) -> OB, src: S, cap: usize) -> Result<(usize, usize), String>
where
    DA: DatumAllocator<ET = u32>,
    DA::TT: TextConcat<DA> + Hash + PartialEq,
    <DA::TT as TextBase>::Pos: Posish,
    OB: OperatorBindings<DA, CE = u32>,
    S: SourceStream<DA>,
{
    let mut da = da;
    let bindings = make(&mut da);
    let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
    let mut kept = vec![];
    let (mut items, mut errs) = (0, 0);
    small(|| {
        for r in p.parse(src) {
            items += 1;
            if items > cap {
                return;
            }
            match r {
                Ok(d) => {
                    if let Datum::Text(x) = &d {
                        use_text(x);
                    }
                    kept.push(d)
                }
                Err(_) => errs += 1,
            }
        }
    });
    if items > cap {
        return Err("does not end".into());
    }
    Ok((items, errs))
}

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}

fn use_text<TT: Text + Hash + PartialEq>(x: &TT) -> (usize, usize, bool, u64, bool) {
    let mut h = Sum(0);
    Hash::hash(x, &mut h);
    (x.iter().count(), x.iter_chunks().count(), x == x, h.0, x.is_empty())
}

/// Put chunks together, from the last to the first if they are linked.
fn link<TT, DA>(chunks: Vec<TT::Chunk>, da: &mut DA) -> TT
where
    TT: TextConcat<DA>,
    DA: DatumAllocator<TT = TT>,
{
    if std::mem::size_of::<TT>() == std::mem::size_of::<Vec<u8>>() {
        return chain(chunks, da);
    }
    let mut t = TT::empty();
    for c in chunks.into_iter().rev() {
        t = TT::from(c).concat(t, da).expect("supply for the source");
    }
    t
}

const WAYS: usize = 10;

/// Parse in one of several set-ups; gives the number of items and errors.
fn parse(way: usize, s: &str, pieces: &[&str], macros: &[Macro]) -> Result<(usize, usize), String> {
    let log: Log = Default::default();
    let cap = s.chars().count() + 1;
    let room = 8 * s.len() + 200;
    macro_rules! hash { () => { &|da: &mut _| hash_bindings(macros, &log, None, da) } }
    macro_rules! pair { () => { &|da: &mut _| pair_bindings(macros, &log, None, da) } }
    match way {
        0 => {
            let mut da = BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default();
            let x = link(posstrs(s, pieces), &mut da);
            consume(da, hash!(), x.iter(), cap)
        }
        1 => {
            let mut da = RcDatumAllocator::<TextVec<PosStrish<Rc<Box<str>>>>, u32>::default();
            let x = link(posstrishes(pieces), &mut da);
            consume(da, pair!(), x.iter(), cap)
        }
        2 => {
            let mut da = ArcDatumAllocator::<TextVec<PosStrish<Arc<String>>>, u32>::default();
            let x = link(posstrishes(pieces), &mut da);
            consume(da, hash!(), x.iter(), cap)
        }
        3 => consume(BoxDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u32>::default(), pair!(), StrishIterSourceStream::new(pieces.iter().map(|p| Rc::<str>::from(*p))), cap),
        4 => consume(RcDatumAllocator::<TextVec<PosStrish<Arc<str>>>, u32>::default(), hash!(), CharIterSourceStream::new(s.chars(), to_arc_str), cap),
        5 => consume(ArcDatumAllocator::<TextVec<PosStrish<Rc<String>>>, u32>::default(), pair!(), StrishIterSourceStream::new(pieces.iter().map(|p| Rc::new(p.to_string()))), cap),
        6 => {
            let mut mem: Vec<_> = (0..room).map(|_| Datum::EmptyNest).collect();
            let mut links: Vec<_> = (0..pieces.len()).map(|_| Datum::EmptyNest).collect();
            let mut la = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut links);
            let x = link(posstrs(s, pieces), &mut la);
            consume(SliceDatumAllocator::new(&mut mem), pair!(), x.iter(), cap)
        }
        7 => {
            let mut mem: Vec<_> = (0..room).map(|_| Datum::EmptyNest).collect();
            let da = SliceDatumAllocator::<TextDatumList<'_, PosStrish<Rc<str>>, u32>, u32>::new(&mut mem);
            consume(da, hash!(), StrishIterSourceStream::new(pieces.iter().map(|p| Rc::<str>::from(*p))), cap)
        }
        8 => {
            let x = Gappy(posstrs(s, pieces));
            consume(BoxDatumAllocator::<Gappy<PosStr<'_>>, u32>::default(), hash!(), x.iter(), cap)
        }
        _ => {
            let mut mem: Vec<_> = (0..room).map(|_| Datum::EmptyNest).collect();
            let da = SliceDatumAllocator::<TextVec<PosStrish<Arc<str>>>, u32>::new(&mut mem);
            consume(da, hash!(), CharIterSourceStream::new(s.chars(), to_arc_str), cap)
        }
    }
}

/// Does nesting stay shallow (except within what an operative gets)?
fn shallow(s: &str, macros: &[Macro]) -> bool {
    model::parse_str(s, macros).max_depth <= 8
}

fn counts(t: &mut Tally, s: &str, pieces: &[&str], macros: &[Macro], way: usize) -> Verdict {
    let want = model::parse_str(s, macros);
    let got = parse(way, s, pieces, macros)?;
    t.traces += 1;
    t.steps += want.steps;
    t.state = Some(hash64(&(want.items.len(), got.1, way, s.len())));
    let errs = want.items.iter().filter(|i| i.is_err()).count();
    if got != (want.items.len(), errs) {
        return Err(format!("{got:?} items and errors instead of {:?}", (want.items.len(), errs)));
    }
    Ok(())
}

/// Texts of many chunks compared, hashed and iterated.
fn texts(t: &mut Tally, pat: &[&str], n: usize, way: usize) -> Verdict {
    let all: Vec<&str> = pat.iter().copied().cycle().take(n * pat.len()).collect();
    let whole: String = all.concat();
    let mut other = all.clone();
    let last = other.len() - 1;
    other[last] = if other[last] == "z" { "y" } else { "z" };
    let whole2: String = other.concat();
    let chars = whole.chars().count();
    let mut m1: Vec<_> = (0..all.len()).map(|_| Datum::EmptyNest).collect();
    let mut m2: Vec<_> = (0..all.len()).map(|_| Datum::EmptyNest).collect();
    macro_rules! check {
        ($x:expr, $y:expr, $z:expr) => {{
            let (x, y, z) = ($x, $y, $z);
            let r = small(|| (use_text(&x), use_text(&y), x == y, y == x, x == z, z == x));
            t.traces += 6;
            t.steps += chars as u64;
            t.state = Some(hash64(&(pat, n, way)));
            if r.0 .0 != chars || r.1 .0 != whole2.chars().count() || !r.0 .2 || r.2 || r.3 || !r.4 || !r.5 {
                return Err(format!("texts of {} chunks: {r:?}", all.len()));
            }
        }};
    }
    let mut bx = BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default();
    let flat: TextVec<PosStr<'_>> = link(posstrs(&whole, &[&whole]), &mut bx);
    match way {
        0 => check!(link(posstrs(&whole, &all), &mut bx), link(posstrs(&whole2, &other), &mut bx), flat),
        1 => {
            let mut da = BoxDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u32>::default();
            check!(link(posstrishes(&all), &mut da), link(posstrishes(&other), &mut da), flat)
        }
        4 => check!(Gappy(posstrs(&whole, &all)), Gappy(posstrs(&whole2, &other)), flat),
        5 => check!(Gappy(posstrishes::<Rc<str>>(&all)), Gappy(posstrishes::<Rc<str>>(&other)), Gappy(posstrs(&whole, &all))),
        2 => {
            let mut l1 = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut m1);
            let mut l2 = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut m2);
            check!(link(posstrs(&whole, &all), &mut l1), link(posstrs(&whole2, &other), &mut l2), flat)
        }
        _ => {
            let mut l1 = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut m1);
            let mut l2 = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut m2);
            let y = link(posstrs(&whole2, &other), &mut l2);
            let x = link(posstrs(&whole, &all), &mut l1);
            let v: TextVec<PosStr<'_>> = link(posstrs(&whole, &all), &mut bx);
            check!(x, y, v)
        }
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C15");
    let n: usize = ctx.pick(5_000, 2_500, 20_000);

    // Comparing.
    let shapes: Vec<(usize, usize)> = vec![(n, 0), (0, n), (n / 2, n / 2), (3, n), (n, 3)];
    let ns = sides().len();
    // 0: equal; 1: the innermost side differs; 2: the outermost; 3: one shorter; 4: another end.
    let build = |sh: usize, side: usize, how: usize| -> Option<(Spine, Spine, bool)> {
        let (heads, elems) = shapes[sh];
        let a = Spine { heads, elems, side, end: 0, odd: None };
        Some(match how {
            0 => (a, a, true),
            1 => (a, Spine { odd: Some(0), ..a }, false),
            2 => (a, Spine { odd: Some(heads + elems - 1), ..a }, false),
            3 if elems > 0 => (a, Spine { elems: elems - 1, ..a }, false),
            3 => (a, Spine { heads: heads - 1, ..a }, false),
            _ if elems > 0 => return None,
            _ => (a, Spine { end: 1 + side % (ns - 1), ..a }, false),
        })
    };
    ctx.explore(
        "compare",
        (KINDS * KINDS * shapes.len()) as u64,
        64,
        ctx.threads,
        |w, i| {
            let i = i as usize;
            let (kl, kr, sh) = (i % KINDS, i / KINDS % KINDS, i / KINDS / KINDS);
            for side in (0..ns).step_by(ctx.pick(3, 1, 1)) {
                for how in 0..5 {
                    if w.stopped() {
                        return;
                    }
                    if let Some((a, b, want)) = build(sh, side, how) {
                        w.case(|| format!("{kl}/{kr}/{sh}/{side}/{how}"), |t| compare(t, kl, kr, &a, &b, want));
                    }
                }
            }
        },
        |w, case| {
            let p: Vec<usize> = case.split('/').map(|x| x.parse().unwrap()).collect();
            let (a, b, want) = build(p[2], p[3], p[4]).unwrap();
            w.case(|| case.into(), |t| compare(t, p[0], p[1], &a, &b, want));
        },
    );

    // Parsing repeated words.
    let o = |e| mac(mtext("o"), Kind::Operative, e);
    let p = |e| mac(mtext("p"), Kind::Applicative, e);
    let tabs: Vec<Vec<Macro>> = vec![
        vec![],
        vec![o(Effect::Remove), p(Effect::Remove)],
        vec![o(Effect::Operands), p(Effect::Operands)],
        vec![o(Effect::Fail(3)), p(Effect::Head)],
    ];
    let word = |t: &mut Tally, s: &str, v: usize| -> Verdict {
        let (way, tab) = (v % WAYS, v / WAYS);
        // A prefix tells how the nesting goes on.
        let cut_at = s.char_indices().nth(400).map_or(s.len(), |x| x.0);
        if !shallow(&s[..cut_at], &tabs[tab]) || !shallow(s, &tabs[tab]) {
            return Ok(());
        }
        let p: Vec<&str> = if way % 2 == 0 { vec![s] } else { cut_every(s, 1 + way) };
        counts(t, s, &p, &tabs[tab], way)
    };
    let us = sv(&["", "{", "{a ", "{o ", "{p ", "{a {"]);
    let ws = sv(&["", "}"]);
    let k: &[usize] = ctx.pick(&[3_000], &[1_500], &[10_000]);
    let mut vs = strings(&["{", "}", "\\", " ", "a"], 1, ctx.pick(1, 2, 3));
    vs.extend(sv(&["{}", "{a}", "{a b}", "{o}", "{o x}", "{p}", "{p {}}", "{o}x", "x{p x}", "{{o}}", " {o}", "{o} ", "\\\\", "\\}a", "λ"]));
    vs.sort();
    vs.dedup();
    pumped_v(&ctx, "parse", &us, &vs, &ws, k, 256, ctx.threads, WAYS * tabs.len(), word);

    // Sources of many pieces.
    let al = ["", "a", "{}", "\\", " ", "{o}", "}"];
    let pats: Vec<Vec<&str>> = {
        let mut v = vec![];
        for a in al {
            v.push(vec![a]);
            for b in al {
                v.push(vec![a, b]);
            }
        }
        v
    };
    let befores = ["", "{a", "{", "{o ", "{p "];
    let many = |t: &mut Tally, pat: &[&str], before: &str, way: usize, tab: usize| -> Verdict {
        let mut v = vec![before];
        v.extend(pat.iter().copied().cycle().take(ctx.pick(3_000, 2_000, 10_000)));
        v.push("z");
        let s = v.concat();
        if !shallow(&s, &tabs[tab]) {
            return Ok(());
        }
        counts(t, &s, &v, &tabs[tab], way)
    };
    ctx.explore(
        "many pieces",
        pats.len() as u64,
        256,
        ctx.threads,
        |w, i| {
            for before in befores {
                for way in 0..WAYS {
                    for tab in 0..2 {
                        if w.stopped() {
                            return;
                        }
                        w.case(|| format!("{i}/{}/{way}/{tab}", enc(before)), |t| many(t, &pats[i as usize], before, way, tab));
                    }
                }
            }
        },
        |w, case| {
            let p: Vec<&str> = case.split('/').collect();
            let before = dec(p[1]);
            w.case(|| case.into(), |t| many(t, &pats[p[0].parse::<usize>().unwrap()], &before, p[2].parse().unwrap(), p[3].parse().unwrap()));
        },
    );

    // Texts.
    let al = ["", "a", "λb", "abcdefgh"];
    let mut pats: Vec<Vec<&str>> = vec![];
    for a in al {
        pats.push(vec![a]);
        for b in al {
            pats.push(vec![a, b]);
            for c in al {
                pats.push(vec![a, b, c]);
            }
        }
    }
    ctx.explore(
        "texts",
        pats.len() as u64,
        64,
        ctx.threads,
        |w, i| {
            for way in 0..6 {
                if w.stopped() {
                    return;
                }
                w.case(|| format!("{i}/{way}"), |t| texts(t, &pats[i as usize], n, way));
            }
        },
        |w, case| {
            let (i, way) = case.split_once('/').unwrap();
            w.case(|| case.into(), |t| texts(t, &pats[i.parse::<usize>().unwrap()], n, way.parse().unwrap()));
        },
    );
    ctx.finish()
}
