//! C11: datum equality is structural for every shape and across reference types.

use kul::datum::{DatumArc, DatumBox, DatumMutRef, DatumRc};
use kul::parser::{AllocError, BoxDatumAllocator};
use kul::text::chunk::{CharPos, PosStr, PosStrish, StrPos};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, Error, Text, TextBase, TextConcat};
use kulmc::engine::{hash64, Ctx, Tally, Verdict, Worker};
use kulmc::imp::chain;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;

/// Model tree.  Texts are given by number: 0 and 1 are the same characters in
/// different chunks, 2 others.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum T {
    Text(u8),
    EmptyNest,
    EmptyList,
    Extra(u32),
    Comb(Rc<T>, Rc<T>),
    List(Rc<T>, Rc<T>),
}

/// The whole specification.
fn equal(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Text(x), T::Text(y)) => x / 2 == y / 2,
        (T::EmptyNest, T::EmptyNest) | (T::EmptyList, T::EmptyList) => true,
        (T::Extra(x), T::Extra(y)) => x == y,
        (T::Comb(p, q), T::Comb(r, s)) | (T::List(p, q), T::List(r, s)) => equal(p, r) && equal(q, s),
        _ => false,
    }
}

fn show(t: &T) -> String {
    match t {
        T::Text(n) => format!("t{n}"),
        T::EmptyNest => "n".into(),
        T::EmptyList => "l".into(),
        T::Extra(n) => format!("x{n}"),
        T::Comb(a, b) => format!("C{}{}", show(a), show(b)),
        T::List(a, b) => format!("L{}{}", show(a), show(b)),
    }
}

fn read(s: &mut std::iter::Peekable<std::str::Chars<'_>>) -> T {
    let num = |s: &mut std::iter::Peekable<std::str::Chars<'_>>| s.next().unwrap().to_digit(10).unwrap();
    match s.next().unwrap() {
        't' => T::Text(num(s) as u8),
        'n' => T::EmptyNest,
        'l' => T::EmptyList,
        'x' => T::Extra(num(s)),
        c => {
            let a = Rc::new(read(s));
            let b = Rc::new(read(s));
            if c == 'C' {
                T::Comb(a, b)
            } else {
                T::List(a, b)
            }
        }
    }
}

/// All trees with the given number of inner nodes.
fn trees(inner: usize, leaves: &[T]) -> Vec<Rc<T>> {
    if inner == 0 {
        return leaves.iter().cloned().map(Rc::new).collect();
    }
    let mut v = vec![];
    for l in 0..inner {
        for a in trees(l, leaves) {
            for b in trees(inner - 1 - l, leaves) {
                v.push(Rc::new(T::Comb(a.clone(), b.clone())));
                v.push(Rc::new(T::List(a.clone(), b.clone())));
            }
        }
    }
    v
}

type TB = TextVec<PosStr<'static>>;
type TR = TextVec<PosStrish<Rc<str>>>;
type TA = TextVec<PosStrish<Arc<str>>>;
type TM = TextDatumList<'static, PosStr<'static>, u32>;

/// A reference type of a user of the core crate.
#[derive(Clone, Copy, Debug)]
struct Mine(&'static Datum<TB, u32, Mine>);
impl Deref for Mine {
    type Target = Datum<TB, u32, Mine>;
    fn deref(&self) -> &Self::Target {
        self.0
    }
}
impl DerefTryMut for Mine {
    fn get_mut(_: &mut Self) -> Option<&mut Self::Target> {
        None
    }
}

const TXT: [&[&str]; 3] = [&["a", "λ"], &["aλ"], &["b"]];

fn text<TT>(n: u8) -> TT
where
    TT: Text,
    TT::Chunk: From<&'static str>,
    TT: TextConcat<Leak<TT>>,
    Leak<TT>: kul::parser::DatumAllocator<TT = TT>,
{
    chain(TXT[n as usize].iter().map(|s| (*s).into()).collect(), &mut Leak(std::marker::PhantomData))
}

/// Allocates from leaked memory (texts only).
struct Leak<TT>(std::marker::PhantomData<TT>);
impl<TT: Text> kul::parser::DatumAllocator for Leak<TT>
where
    TT: 'static,
{
    type TT = TT;
    type ET = u32;
    type DR = DatumMutRef<'static, TT, u32>;
    fn new_datum(&mut self, d: Datum<TT, u32, Self::DR>) -> Result<Self::DR, AllocError> {
        Ok(DatumMutRef(Box::leak(Box::new(d))))
    }
}

fn build<TT, DR>(t: &Rc<T>, txt: &impl Fn(u8) -> TT, mk: &mut impl FnMut(&Rc<T>, Datum<TT, u32, DR>) -> DR) -> Datum<TT, u32, DR>
where
    DR: DerefTryMut<Target = Datum<TT, u32, DR>>,
{
    match &**t {
        T::Text(n) => Datum::Text(txt(*n)),
        T::EmptyNest => Datum::EmptyNest,
        T::EmptyList => Datum::EmptyList,
        T::Extra(n) => Datum::Extra(*n),
        T::Comb(a, b) => {
            let x = build(a, txt, mk);
            let operator = mk(a, x);
            let y = build(b, txt, mk);
            Datum::Combination { operator, operands: mk(b, y) }
        }
        T::List(a, b) => {
            let x = build(a, txt, mk);
            let elem = mk(a, x);
            let y = build(b, txt, mk);
            Datum::List { elem, next: mk(b, y) }
        }
    }
}

/// One tree in every reference type.
struct All {
    t: Rc<T>,
    bx: DatumBox<TB, u32>,
    rc: DatumRc<TR, u32>,
    /// Equal subtrees, also of different trees, are the same node.
    shared: DatumRc<TR, u32>,
    sharc: DatumArc<TA, u32>,
    arc: DatumArc<TA, u32>,
    mr: DatumMutRef<'static, TM, u32>,
    mine: Mine,
}

thread_local! {
    static RCS: RefCell<HashMap<T, DatumRc<TR, u32>>> = RefCell::default();
    static ARCS: RefCell<HashMap<T, DatumArc<TA, u32>>> = RefCell::default();
    static MINES: RefCell<HashMap<T, Mine>> = RefCell::default();
}

fn make(t: &Rc<T>) -> All {
    let tb = &|n| text::<TB>(n);
    let tr = &|n| text::<TR>(n);
    let ta = &|n| text::<TA>(n);
    let tm = &|n| text::<TM>(n);
    fn cons<D: Clone, R: Clone>(m: &RefCell<HashMap<T, R>>, t: &Rc<T>, d: D, new: impl Fn(D) -> R) -> R {
        m.borrow_mut().entry((**t).clone()).or_insert_with(|| new(d)).clone()
    }
    All {
        t: t.clone(),
        bx: DatumBox::new(build(t, tb, &mut |_, d| DatumBox::new(d))),
        rc: DatumRc::new(build(t, tr, &mut |_, d| DatumRc::new(d))),
        shared: RCS.with(|m| DatumRc::new(build(t, tr, &mut |t, d| cons(m, t, d, DatumRc::new)))),
        sharc: ARCS.with(|m| DatumArc::new(build(t, ta, &mut |t, d| cons(m, t, d, DatumArc::new)))),
        arc: DatumArc::new(build(t, ta, &mut |_, d| DatumArc::new(d))),
        mr: DatumMutRef(Box::leak(Box::new(build(t, tm, &mut |_, d| DatumMutRef(Box::leak(Box::new(d))))))),
        mine: MINES.with(|m| Mine(Box::leak(Box::new(build(t, tb, &mut |t, d| cons(m, t, d, |d| Mine(Box::leak(Box::new(d))))))))),
    }
}

#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend(b);
    }
}
fn recorded<H: Hash>(t: &H) -> Vec<u8> {
    let mut r = Recorder::default();
    t.hash(&mut r);
    r.0
}

fn pair(t: &mut Tally, p: &All, q: &All) -> Verdict {
    let want = equal(&p.t, &q.t);
    macro_rules! row {
        ($a:ident; $($b:ident),*) => { $(
            if (*p.$a == *q.$b) != want || (*q.$b == *p.$a) != want || (*p.$a != *q.$b) == want {
                return Err(format!("{} with {}: compares {}equal", stringify!($a), stringify!($b), if want { "un" } else { "" }));
            }
        )* };
    }
    row!(bx; bx, rc, shared, arc, mr, mine);
    row!(rc; rc, shared, arc, mr, mine);
    row!(shared; shared, arc, mr, mine);
    row!(sharc; sharc, bx);
    row!(arc; arc, mr, mine);
    row!(mr; mr, mine);
    row!(mine; mine);
    macro_rules! same { ($($a:ident),*) => { $(
        if (p.$a == q.$a) != want {
            return Err(format!("references {}: compare {}equal", stringify!($a), if want { "un" } else { "" }));
        }
        if want && (recorded(&p.$a) != recorded(&q.$a) || recorded(&*p.$a) != recorded(&*q.$a)) {
            return Err(format!("{}: equal but hash differently", stringify!($a)));
        }
    )* } }
    same!(bx, rc, shared, sharc, arc, mr);
    t.traces += 29;
    t.steps += 23 * 3 + 6;
    t.state = Some(hash64(&(&p.t, &q.t)));
    Ok(())
}

/// Clones are equal, and boxed ones independent.
fn clones(t: &mut Tally, p: &All) -> Verdict {
    macro_rules! each { ($($a:ident),*) => { $(
        let c = p.$a.clone();
        let d = (*p.$a).clone();
        if c != p.$a || *c != *p.$a || d != *p.$a || *p.$a != d {
            return Err(format!("{}: a clone is not equal", stringify!($a)));
        }
        if recorded(&d) != recorded(&*p.$a) {
            return Err(format!("{}: a clone hashes differently", stringify!($a)));
        }
    )* } }
    each!(bx, rc, shared, arc);
    let m = p.mine;
    if *m != *p.mine || *p.bx != *m {
        return Err("a copy is not equal".into());
    }
    let before = recorded(&*p.bx);
    let mut c = p.bx.clone();
    match DatumBox::get_mut(&mut c) {
        Some(x) => *x = Datum::Extra(77),
        None => return Err("no mutable access to a box".into()),
    }
    drop(c);
    let mut c = p.bx.clone();
    if let Datum::List { elem, .. } | Datum::Combination { operator: elem, .. } = &mut *c {
        **elem = Datum::Extra(78);
    }
    if recorded(&*p.bx) != before {
        return Err("changing a clone of a box changed the original".into());
    }
    t.traces += 5;
    t.steps += 20;
    t.state = Some(hash64(&p.t));
    Ok(())
}

fn errors(t: &mut Tally) -> Verdict {
    let s: &'static str = "abc";
    let s2: &'static str = "abd";
    let mut v: Vec<(u32, Error<StrPos<'static>, u32>, Error<CharPos, u32>)> = vec![];
    let mut n = 0;
    for src in [s, s2] {
        for b in 0..3 {
            for c in 0..3 {
                n += 1;
                let p = StrPos { src, byte_pos: b, char_pos: c };
                v.push((n, Error::UnbalancedEndChar(p), Error::UnbalancedEndChar(CharPos(n as usize))));
            }
        }
    }
    v.push((100, Error::MissingEndChar, Error::MissingEndChar));
    v.push((101, Error::FailedAlloc(AllocError::AllocExhausted), Error::FailedAlloc(AllocError::AllocExhausted)));
    v.push((102, Error::FailedDerefTryMut, Error::FailedDerefTryMut));
    for i in 0..3 {
        v.push((103 + i, Error::FailedCombiner(i), Error::FailedCombiner(i)));
    }
    for a in &v {
        for b in &v {
            let want = a.0 == b.0;
            t.traces += 1;
            t.steps += 4;
            if (a.1 == b.1) != want || (a.2 == b.2) != want || (a.1 != b.1) == want || (b.2 == a.2) != want {
                return Err(format!("errors {:?} and {:?}, or {:?} and {:?}: expected equal: {want}", a.1, b.1, a.2, b.2));
            }
        }
        if a.1.clone() != a.1 {
            return Err("a cloned error is not equal".into());
        }
    }
    // Results of parsing carry them.
    let ok: Result<u32, Error<CharPos, u32>> = Ok(1);
    if ok != Ok(1) {
        return Err("results".into());
    }
    t.state = Some(hash64(&v.len()));
    Ok(())
}

/// A list or a head nest of `k` copies of a pattern with one place changed.
fn long(spine: u8, unit: &Rc<T>, k: usize, at: Option<usize>, to: &Rc<T>) -> Rc<T> {
    let mut d = Rc::new(T::EmptyList);
    for i in (0..k).rev() {
        let e = if Some(i) == at { to.clone() } else { unit.clone() };
        d = Rc::new(match spine {
            0 => T::List(e, d),
            1 => T::Comb(d, e),
            _ if i % 2 == 0 => T::List(e, d),
            _ => T::Comb(d, e),
        });
    }
    d
}

fn replay_pair(w: &mut Worker<'_>, c: &str) {
    let v: Vec<Rc<T>> = c.split('/').map(|s| Rc::new(read(&mut s.chars().peekable()))).collect();
    let p = make(&v[0]);
    if v.len() == 1 {
        w.case(|| c.into(), |t| clones(t, &p));
    } else {
        let q = make(&v[1]);
        w.case(|| c.into(), |t| pair(t, &p, &q));
    }
}

fn main() {
    let ctx = Ctx::new("C11");
    let _ = (BoxDatumAllocator::<TB, u32>::default(), TB::empty());
    let all_leaves = vec![T::Text(0), T::Text(1), T::Text(2), T::EmptyNest, T::EmptyList, T::Extra(1), T::Extra(2)];
    let few = vec![T::Text(0), T::EmptyNest, T::EmptyList];
    let two = vec![T::Text(0), T::EmptyList];
    let pairs = |name: &str, inner: usize, leaves: &[T]| {
        thread_local! { static ALL: RefCell<(String, Rc<Vec<All>>)> = Default::default(); }
        let leaves: Vec<String> = leaves.iter().map(show).collect();
        let list = || -> Vec<Rc<T>> {
            let l: Vec<T> = leaves.iter().map(|s| read(&mut s.chars().peekable())).collect();
            (0..=inner).flat_map(|i| trees(i, &l)).collect()
        };
        let n = list().len();
        ctx.explore(
            name,
            n as u64,
            64,
            ctx.threads,
            |w, i| {
                let all = ALL.with(|a| {
                    let mut a = a.borrow_mut();
                    if a.0 != name {
                        *a = (name.to_string(), Rc::new(list().iter().map(make).collect()));
                    }
                    a.1.clone()
                });
                let p = &all[i as usize];
                w.case(|| show(&p.t), |t| clones(t, p));
                for q in &all[..=i as usize] {
                    w.case(|| format!("{}/{}", show(&p.t), show(&q.t)), |t| pair(t, p, q));
                    if w.stopped() {
                        return;
                    }
                }
            },
            replay_pair,
        );
    };
    pairs("all", ctx.pick(1, 2, 2), &all_leaves);
    pairs("deeper", ctx.pick(2, 3, 3), &few);
    if ctx.tier == kulmc::engine::Tier::Thorough {
        pairs("deep", 4, &two);
    }
    // Long spines that differ in one place.
    let ks: Vec<usize> = ctx.pick(vec![10], vec![10, 1000], vec![10, 1000, 3000]);
    let n = (3 * 7 * ks.len()) as u64;
    let spines = |w: &mut Worker<'_>, i: usize| {
        let leaves = [T::Text(0), T::Text(1), T::Text(2), T::EmptyNest, T::EmptyList, T::Extra(1), T::Extra(2)].map(Rc::new);
        let k = ks[i / 21];
        let unit = &leaves[i % 7];
        let spine = (i / 7 % 3) as u8;
        let p = make(&long(spine, unit, k, None, unit));
        for to in &leaves {
            for at in [0, 1, k / 2, k - 2, k - 1] {
                w.case(
                    || format!("{i}"),
                    |t| {
                        let q = make(&long(spine, unit, k, Some(at), to));
                        pair(t, &p, &q).map_err(|m| format!("spine {spine}, {k} times {unit:?}, at {at} {to:?}: {m}"))
                    },
                );
            }
        }
        for len in [k - 1, k, k + 1] {
            w.case(
                || format!("{i}"),
                |t| {
                    let q = make(&long(spine, unit, len, None, unit));
                    pair(t, &p, &q).map_err(|m| format!("spine {spine}, {k} and {len} times {unit:?}: {m}"))
                },
            );
        }
    };
    ctx.explore("spines", n, 1024, ctx.threads, |w, i| spines(w, i as usize), |w, c| spines(w, c.parse().unwrap()));
    // Very long ones, which do not fit the above.
    let far = |t: &mut Tally, spine: u8, k: usize, at: usize, to: usize, len: usize| -> Verdict {
        let unit = |i: usize| (i % 3) as u8;
        type Mk<'a, TT, DR> = &'a mut dyn FnMut(Datum<TT, u32, DR>) -> DR;
        fn grow<TT: Text, DR>(spine: u8, elems: &[(bool, u8)], txt: &dyn Fn(u8) -> TT, mk: Mk<'_, TT, DR>) -> DR
        where
            DR: DerefTryMut<Target = Datum<TT, u32, DR>>,
        {
            let mut d = mk(Datum::EmptyList);
            for (i, &(t, n)) in elems.iter().enumerate().rev() {
                let e = if t { Datum::Text(txt(n)) } else { Datum::Extra(n.into()) };
                let e = mk(e);
                d = mk(match spine {
                    0 => Datum::List { elem: e, next: d },
                    1 => Datum::Combination { operator: d, operands: e },
                    _ if i % 2 == 0 => Datum::List { elem: e, next: d },
                    _ => Datum::Combination { operator: d, operands: e },
                });
            }
            d
        }
        let p: Vec<(bool, u8)> = (0..k).map(|i| (i % 2 == 0, unit(i))).collect();
        let mut q: Vec<(bool, u8)> = (0..len).map(|i| (i % 2 == 0, unit(i))).collect();
        if let Some(x) = q.get_mut(at) {
            *x = [*x, (true, 0), (true, 1), (true, 2), (false, 1)][to];
        }
        let want = p.len() == q.len() && p.iter().zip(&q).all(|(x, y)| x == y || x.0 && y.0 && x.1 / 2 == y.1 / 2);
        let (b1, b2) = [&p, &q].map(|e| grow(spine, e, &text::<TB>, &mut DatumBox::new)).into();
        let (r1, r2) = [&p, &q].map(|e| grow(spine, e, &text::<TR>, &mut DatumRc::new)).into();
        let (a1, a2) = [&p, &q].map(|e| grow(spine, e, &text::<TA>, &mut DatumArc::new)).into();
        macro_rules! agree { ($($a:ident $b:ident),*) => { $(
            if (*$a == *$b) != want || (*$b == *$a) != want || (*$a != *$b) == want {
                return Err(format!("{} with {}: compare {}equal", stringify!($a), stringify!($b), if want { "un" } else { "" }));
            }
        )* } }
        agree!(b1 b2, b1 r2, b1 a2, r1 r2, r1 b2, r1 a2, a1 a2, a1 b2, a1 r2);
        if *b1 != *b1.clone() || *r1 != *r1.clone() || *a1 != *a1.clone() {
            return Err("a clone is not equal".into());
        }
        if want && (recorded(&b1) != recorded(&b2) || recorded(&r1) != recorded(&r2) || recorded(&a1) != recorded(&a2)) {
            return Err("equal but hash differently".into());
        }
        t.traces += 12;
        t.steps += 36;
        t.state = Some(hash64(&(spine, k, at, to, len)));
        Ok(())
    };
    let mut ks = kulmc::spaces::lengths(&ctx, 4096);
    ks.retain(|&n| n > 2);
    ks.extend(ctx.pick(&[][..], &[70_000], &[70_000, 300_000]));
    ctx.explore(
        "far",
        (ks.len() * 3 * 5) as u64,
        3000,
        ctx.threads.min(4),
        |w, i| {
            let i = i as usize;
            let (k, spine, to) = (ks[i / 15], (i / 5 % 3) as u8, i % 5);
            for at in [0, k / 2, k - 3, k - 2, k - 1] {
                w.case(|| format!("{spine}/{k}/{at}/{to}/{k}"), |t| far(t, spine, k, at, to, k));
            }
            if to == 0 {
                for len in [0, k / 2, k - 1, k + 1, k + 300] {
                    w.case(|| format!("{spine}/{k}/{k}/0/{len}"), |t| far(t, spine, k, k + 999, 0, len));
                }
            }
        },
        |w, c| {
            let p: Vec<usize> = c.split('/').map(|x| x.parse().unwrap()).collect();
            w.case(|| c.into(), |t| far(t, p[0] as u8, p[1], p[2], p[3], p[4]));
        },
    );
    ctx.explore("errors", 1, 16, 1, |w, _| w.case(|| "all".into(), errors), |w, c| w.case(|| c.into(), errors));
    ctx.finish()
}
