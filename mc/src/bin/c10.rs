//! C10: text values behave as the plain character sequence they represent.

use kul::parser::{BoxDatumAllocator, SliceDatumAllocator};
use kul::text::chunk::{CharPos, PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, Text, TextBase, TextConcat};
use kulmc::engine::{dec, enc, hash64, Ctx, Tally, Verdict, Worker};
use kulmc::gappy::Gappy;
use kulmc::imp::{chain, intern, posstrishes, posstrs, Strishy};
use kulmc::words::{join, strings, visit};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

type VS = TextVec<PosStr<'static>>;
type LS = TextDatumList<'static, PosStr<'static>, u32>;
type GS = Gappy<PosStr<'static>>;
type VR = TextVec<PosStrish<Rc<str>>>;
type VA = TextVec<PosStrish<Arc<Box<str>>>>;
type LA = TextDatumList<'static, PosStrish<Arc<String>>, u32>;

/// Sensitive to how the data is fed, not only to the bytes.
#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend(b);
    }
}
fn recorded<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Recorder::default();
    t.hash(&mut r);
    r.0
}

/// The same layout as each text type; slots and strings are leaked.
struct One {
    s: &'static str,
    vs: VS,
    ls: LS,
    gs: GS,
    vr: VR,
    va: VA,
    la: LA,
}

fn slots<TT: Text>(n: usize) -> SliceDatumAllocator<'static, TT, u32> {
    SliceDatumAllocator::new(Box::leak((0..n).map(|_| Datum::EmptyNest).collect::<Vec<_>>().into_boxed_slice()))
}

fn moved<R: Strishy>(p: &[&str], by: usize) -> Vec<PosStrish<R>> {
    posstrishes::<R>(p).into_iter().map(|c| PosStrish { pos: CharPos(c.pos.0 + by), ..c }).collect()
}

fn make(lay: &[&str]) -> One {
    let s: &'static str = intern(&lay.concat());
    let whole: &'static str = intern(&format!("é{s}é"));
    let vb = &mut BoxDatumAllocator::<VS, u32>::default();
    let at = |w: &'static str, b: &'static str| -> Vec<PosStr<'static>> {
        let lay: Vec<&'static str> = lay.iter().map(|x| intern(x)).collect();
        let mut p = vec![b];
        p.extend(lay);
        let mut v = posstrs(w, &p);
        v.remove(0);
        v
    };
    let mut gaps = vec![""];
    for p in lay {
        gaps.extend([*p, ""]);
    }
    let gaps: Vec<&'static str> = gaps.iter().map(|x| intern(x)).collect();
    One {
        s,
        vs: chain(at(s, ""), vb),
        ls: chain(at(whole, "é"), &mut slots(lay.len())),
        gs: Gappy(posstrs(s, &gaps)),
        vr: chain(moved(lay, 0), &mut BoxDatumAllocator::<VR, u32>::default()),
        va: chain(moved(lay, 3), &mut BoxDatumAllocator::<VA, u32>::default()),
        la: chain(moved(lay, 5), &mut slots(lay.len())),
    }
}

/// Everything observable about one text.
fn alone<T: Text + Hash + Eq>(x: &T, s: &str, t: &mut Tally) -> Verdict {
    if !x.chars().eq(s.chars()) {
        return Err("chars() differs".into());
    }
    if !x.iter().map(|i| i.ch).eq(s.chars()) {
        return Err("iter() differs".into());
    }
    if x.is_empty() != s.is_empty() {
        return Err(format!("is_empty() is {}", x.is_empty()));
    }
    let n: String = x.iter_chunks().flat_map(|c| kul::TextChunk::src_strm(c).map(|i| i.ch)).collect();
    if n != s {
        return Err(format!("the chunks contain {n:?}"));
    }
    let mut sizes: Vec<usize> = (0..=s.len() + 2).collect();
    if s.len() > 40 {
        sizes.retain(|&b| b < 10 || b + 10 > s.len());
    }
    for b in sizes {
        let mut buf = vec![0xa5u8; b];
        let at = buf.as_ptr() as usize;
        let r = x.encode_utf8(&mut buf);
        let mut cutoff = b.min(s.len());
        while !s.is_char_boundary(cutoff) {
            cutoff -= 1;
        }
        let (got, good) = match r {
            Ok(g) => (g, b >= s.len()),
            Err(g) => (g, b < s.len()),
        };
        if !good || got != &s[..cutoff] || got.as_ptr() as usize != at {
            return Err(format!("encoding into {b} bytes: {r:?}"));
        }
        t.steps += 1;
    }
    t.traces += 1;
    Ok(())
}

/// Two texts of any types.
fn two<A, B>(x: &A, a: &str, y: &B, b: &str) -> Verdict
where
    A: Text + Hash + PartialEq<B> + PartialOrd<B>,
    B: Text + Hash + PartialEq<A> + PartialOrd<A>,
{
    let ord = a.chars().cmp(b.chars());
    let eq = ord == Ordering::Equal;
    let bad = |m: &str| Err(format!("{m} of {a:?} and {b:?} (expected order {ord:?})"));
    if (x == y) != eq || (y == x) != eq || (x != y) == eq || Text::eq(x, y) != eq {
        return bad("equality");
    }
    if x.partial_cmp(y) != Some(ord) || y.partial_cmp(x) != Some(ord.reverse()) || Text::cmp(x, y) != ord {
        return bad("order");
    }
    if (x < y) != ord.is_lt() || (x <= y) != ord.is_le() || (x > y) != ord.is_gt() || (x >= y) != ord.is_ge() {
        return bad("order operators");
    }
    if eq && recorded(x) != recorded(y) {
        return bad("hashes");
    }
    Ok(())
}

fn total<A: Ord>(x: &A, y: &A, ord: Ordering) -> Verdict {
    if x.cmp(y) != ord || y.cmp(x) != ord.reverse() {
        return Err("Ord::cmp".into());
    }
    Ok(())
}

fn pair(t: &mut Tally, p: &One, q: &One) -> Verdict {
    macro_rules! row {
        ($a:ident; $($b:ident),*) => { $(
            two(&p.$a, p.s, &q.$b, q.s).map_err(|m| format!("{} with {}: {m}", stringify!($a), stringify!($b)))?;
        )* };
    }
    row!(vs; vs, ls, gs, vr, va, la);
    row!(ls; vs, ls, gs, vr, va, la);
    row!(gs; vs, ls, gs, vr, va, la);
    row!(vr; vs, ls, gs, vr, va, la);
    row!(va; vs, ls, gs, vr, va, la);
    row!(la; vs, ls, gs, vr, va, la);
    let ord = p.s.chars().cmp(q.s.chars());
    total(&p.vs, &q.vs, ord)?;
    total(&p.ls, &q.ls, ord)?;
    total(&p.vr, &q.vr, ord)?;
    total(&p.va, &q.va, ord)?;
    total(&p.la, &q.la, ord)?;
    t.traces += 41;
    t.steps += 36 * 12;
    t.state = Some(hash64(&(p.s, q.s)));
    Ok(())
}

fn single(t: &mut Tally, p: &One) -> Verdict {
    macro_rules! each { ($($a:ident),*) => { $( alone(&p.$a, p.s, t).map_err(|m| format!("{}: {m}", stringify!($a)))?; )* } }
    each!(vs, ls, gs, vr, va, la);
    t.state = Some(hash64(&p.s));
    Ok(())
}

/// What a text is made of, with positions.
fn content<T: Text>(x: &T, f: impl Fn(&T::Pos) -> usize) -> Vec<(char, usize)> {
    x.iter().map(|i| (i.ch, f(&i.pos))).collect()
}

/// Concatenate in both groupings, with empty texts put in everywhere.
fn concats(t: &mut Tally, lays: [&[&str]; 3]) -> Verdict {
    fn go<T, D>(t: &mut Tally, mk: impl Fn(usize) -> T, da: &mut D, empties: &[fn() -> T], pos: impl Fn(&T::Pos) -> usize) -> Verdict
    where
        T: TextConcat<D> + Hash + Eq,
    {
        let want: Vec<(char, usize)> = (0..3).flat_map(|i| content(&mk(i), &pos)).collect();
        let mut all = vec![];
        let l = mk(0).concat(mk(1), da).unwrap();
        all.push(l.concat(mk(2), da).unwrap());
        let r = mk(1).concat(mk(2), da).unwrap();
        all.push(mk(0).concat(r, da).unwrap());
        for e in empties {
            for mask in 1..16 {
                // Empty texts in the chosen gaps, folded from either side.
                let seq = || {
                    let mut v = vec![];
                    for i in 0..4 {
                        if mask >> i & 1 == 1 {
                            v.push(e());
                        }
                        if i < 3 {
                            v.push(mk(i));
                        }
                    }
                    v
                };
                let mut it = seq().into_iter();
                let first = it.next().unwrap();
                all.push(it.fold(first, |a, b| a.concat(b, da).unwrap()));
                let mut it = seq().into_iter().rev();
                let last = it.next().unwrap();
                all.push(it.fold(last, |a, b| b.concat(a, da).unwrap()));
            }
        }
        let s: String = want.iter().map(|x| x.0).collect();
        let mut n = Tally::scratch();
        for (k, x) in all.iter().enumerate() {
            if content(x, &pos) != want {
                return Err(format!("concatenation {k} contains {:?}, expected {want:?}", content(x, &pos)));
            }
            if x.is_empty() != want.is_empty() || *x != all[0] || recorded(x) != recorded(&all[0]) {
                return Err(format!("concatenation {k} is not equal to the others"));
            }
            if k < 3 {
                alone(x, &s, &mut n)?;
            }
        }
        t.traces += all.len() as u64;
        t.steps += 4 * all.len() as u64;
        Ok(())
    }
    let n: usize = lays.iter().map(|l| l.len()).sum();
    let whole: String = lays.iter().flat_map(|l| l.iter().copied()).collect();
    let mut flat = vec![];
    let mut ends = vec![0];
    for l in lays {
        flat.extend_from_slice(l);
        ends.push(flat.len());
    }
    let ps = posstrs(&whole, &flat);
    let rs = posstrishes::<Rc<str>>(&flat);
    {
        type T<'s> = TextVec<PosStr<'s>>;
        let mut da = BoxDatumAllocator::<T<'_>, u32>::default();
        let mk = |i: usize| -> T<'_> { chain(ps[ends[i]..ends[i + 1]].to_vec(), &mut BoxDatumAllocator::<T<'_>, u32>::default()) };
        go(t, mk, &mut da, &[T::empty, || T::from_str("")], |p| p.byte_pos)?;
    }
    {
        type T = TextVec<PosStrish<Rc<str>>>;
        let mut da = BoxDatumAllocator::<T, u32>::default();
        let mk = |i: usize| -> T { chain(rs[ends[i]..ends[i + 1]].to_vec(), &mut BoxDatumAllocator::<T, u32>::default()) };
        go(t, mk, &mut da, &[T::empty, || T::from_str("")], |p| p.0)?;
    }
    {
        type T<'d, 's> = TextDatumList<'d, PosStr<'s>, u32>;
        let mut a: Vec<_> = (0..400 * (n + 3)).map(|_| Datum::EmptyNest).collect();
        let (a, b) = a.split_at_mut(200 * (n + 3));
        let src = RefCell::new(SliceDatumAllocator::<T<'_, '_>, u32>::new(a));
        let mut da = SliceDatumAllocator::<T<'_, '_>, u32>::new(b);
        let mk = |i: usize| -> T<'_, '_> { chain(ps[ends[i]..ends[i + 1]].to_vec(), &mut *src.borrow_mut()) };
        go(t, mk, &mut da, &[T::empty, || T::from_str("")], |p| p.byte_pos)?;
    }
    t.state = Some(hash64(&(&whole, &ends)));
    Ok(())
}

/// Every way to cut `s` into non-empty pieces.
fn cuts(s: &str) -> Vec<Vec<&str>> {
    let n = s.chars().count();
    (0..1u64 << n.saturating_sub(1)).map(|m| if n == 0 { vec![] } else { kulmc::imp::cut(s, m) }).collect()
}

fn spec(l: &[&str]) -> String {
    l.iter().map(|p| enc(p)).collect::<Vec<_>>().join(",")
}

fn unspec(s: &str) -> Vec<String> {
    s.split(',').filter(|p| !p.is_empty()).map(dec).collect()
}

fn refs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| &s[..]).collect()
}

fn replay_pair(w: &mut Worker<'_>, c: &str) {
    let v: Vec<Vec<String>> = c.split('/').map(unspec).collect();
    let p = make(&refs(&v[0]));
    if v.len() == 1 {
        w.case(|| c.into(), |t| single(t, &p));
    } else {
        let q = make(&refs(&v[1]));
        w.case(|| c.into(), |t| pair(t, &p, &q));
    }
}

fn main() {
    let ctx = Ctx::new("C10");
    let pairs = |name: &str, lays: &[Vec<String>]| {
        thread_local! { static ALL: RefCell<(String, Rc<Vec<One>>)> = Default::default(); }
        ctx.explore(
            name,
            lays.len() as u64,
            64,
            ctx.threads,
            |w, i| {
                let all = ALL.with(|a| {
                    let mut a = a.borrow_mut();
                    if a.0 != name {
                        *a = (name.to_string(), Rc::new(lays.iter().map(|l| make(&refs(l))).collect()));
                    }
                    a.1.clone()
                });
                let i = i as usize;
                w.case(|| spec(&refs(&lays[i])), |t| single(t, &all[i]));
                for j in 0..all.len() {
                    w.case(|| format!("{}/{}", spec(&refs(&lays[i])), spec(&refs(&lays[j]))), |t| pair(t, &all[i], &all[j]));
                    if w.stopped() {
                        return;
                    }
                }
            },
            replay_pair,
        );
    };
    let owned = |v: Vec<Vec<&str>>| -> Vec<Vec<String>> { v.into_iter().map(|l| l.into_iter().map(|s| s.to_string()).collect()).collect() };
    // U+FF61 and U+1D11E order differently in UTF-16.
    let words = strings(&["a", "b", "λ", "\u{ff61}", "𝄞"], 0, ctx.pick(2, 3, 3));
    pairs("pairs", &owned(words.iter().flat_map(|s| cuts(s)).collect()));
    let words = strings(&["a", "λ"], 0, ctx.pick(3, 5, 6));
    pairs("longer", &owned(words.iter().flat_map(|s| cuts(s)).collect()));
    // Long texts, equal but for one place, in coarse and fine pieces.
    let mut lays = vec![];
    for k in ctx.pick(vec![30], vec![30, 300], vec![30, 300, 3000]) {
        for mid in ["", "a", "λ"] {
            for end in ["", "a", "𝄞"] {
                for p in ["aλ", "a"] {
                    let s: String = p.repeat(k) + mid + &p.repeat(k) + end;
                    let c: Vec<char> = s.chars().collect();
                    for size in [1, 3, 7, usize::MAX] {
                        lays.push(c.chunks(size.min(c.len())).map(|x| x.iter().collect::<String>()).collect::<Vec<_>>());
                    }
                }
            }
        }
    }
    pairs("long", &lays);
    // Very long texts that differ in one place or in length.
    let far = |t: &mut Tally, n: usize, at: usize, to: &str, size: usize| {
        let unit: Vec<char> = "aλ𝄞".chars().collect();
        let s: Vec<char> = (0..n).map(|i| unit[i % 3]).collect();
        let mut o = s.clone();
        o.splice(at..(at + 1).min(n), to.chars());
        let lay = |c: &[char], size: usize| -> Vec<String> { c.chunks(size).map(|x| x.iter().collect()).collect() };
        let (a, b) = (lay(&s, size), lay(&o, 1000));
        let (sa, sb) = (a.concat(), b.concat());
        let (pa, pb) = (posstrs(&sa, &refs(&a)), posstrs(&sb, &refs(&b)));
        let mut slots: Vec<_> = (0..2 * pa.len() + 4).map(|_| Datum::EmptyNest).collect();
        let x: VSs<'_> = pa.iter().fold(VSs::empty(), |x, c| x.concat((*c).into(), &mut BoxDatumAllocator::<VSs<'_>, u32>::default()).unwrap());
        let y: VSs<'_> = pb.iter().fold(VSs::empty(), |x, c| x.concat((*c).into(), &mut BoxDatumAllocator::<VSs<'_>, u32>::default()).unwrap());
        let z = TextVec::from(PosStrish::<Arc<str>>::from(&*sb));
        let mut da = SliceDatumAllocator::new(&mut slots);
        // (Concatenation of linked texts walks the left one.)
        let mut u = TextDatumList::<'_, _, u32>::empty();
        for c in pa.iter().rev().take(300) {
            u = TextDatumList::from(*c).concat(u, &mut da).unwrap();
        }
        let su: String = a[a.len().saturating_sub(300)..].concat();
        two(&x, &sa, &y, &sb)?;
        two(&x, &sa, &x.clone(), &sa)?;
        two(&x, &sa, &z, &sb)?;
        two(&u, &su, &z, &sb)?;
        two(&u, &su, &u, &su)?;
        total(&x, &y, sa.chars().cmp(sb.chars()))?;
        alone(&x, &sa, t)?;
        alone(&z, &sb, t)?;
        alone(&u, &su, t)?;
        t.traces += 6;
        t.steps += 60;
        t.state = Some(hash64(&(n, at, to)));
        Ok(())
    };
    let mut lens = kulmc::spaces::lengths(&ctx, 4096);
    lens.retain(|&n| n > 1);
    lens.extend(ctx.pick(&[][..], &[22_000, 70_000], &[22_000, 70_000, 300_000]));
    let tos = ["", "b", "λ", "𝄞a"];
    ctx.explore(
        "far",
        (lens.len() * 5 * tos.len() * 3) as u64,
        64,
        ctx.threads,
        |w, i| {
            let i = i as usize;
            let (size, to, n) = ([1, 7, usize::MAX][i % 3], i / 3 % tos.len(), lens[i / 15 / tos.len()]);
            let at = [0, n / 2, n - 2, n - 1, n][i / 3 / tos.len() % 5];
            w.case(|| format!("{n}/{at}/{to}/{size}"), |t| far(t, n, at, tos[to], size));
        },
        |w, c| {
            let p: Vec<usize> = c.split('/').map(|x| x.parse().unwrap()).collect();
            w.case(|| c.into(), |t| far(t, p[0], p[1], tos[p[2]], p[3]));
        },
    );
    // Characters that differ in few bits, or could be taken for each other.
    let mut few: Vec<char> = kulmc::spaces::wide_by(ctx.pick(29, 1, 1));
    few.extend((0..21).flat_map(|k| ['a' as u32, 0x3bb, 0xff61].map(|c| c ^ 1 << k)).filter_map(char::from_u32));
    few.sort();
    few.dedup();
    pairs("alike", &few.iter().flat_map(|c| [vec![format!("{c}")], vec!["x".into(), format!("{c}")]]).collect::<Vec<_>>());
    // Every way to make a text from a string.
    let wide = kulmc::spaces::wide_by(ctx.pick(29, 1, 1));
    let mut made = strings(kulmc::spaces::UNI, 0, ctx.pick(1, 3, 3));
    made.extend(wide.iter().flat_map(|c| wide.iter().flat_map(move |d| [format!("{c}{d}"), format!("{c}x{d}")])));
    ctx.explore(
        "made",
        made.len() as u64,
        16,
        ctx.threads,
        |w, i| w.case(|| enc(&made[i as usize]), |t| from_strings(t, &made[i as usize])),
        |w, c| {
            let s = dec(c);
            w.case(|| c.into(), |t| from_strings(t, &s));
        },
    );
    // Every character on its own, next to its neighbours.
    let chars: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).collect();
    let step = ctx.pick(4096usize, 512, 512);
    ctx.explore(
        "characters",
        (chars.len() / step + 1) as u64,
        16,
        ctx.threads,
        |w, i| {
            let from = i as usize * step;
            let to = (from + step).min(chars.len());
            let to = if w.tier() == kulmc::engine::Tier::Smoke { to.min(from + 4) } else { to };
            for k in from..to {
                let c = chars[k];
                w.case(
                    || format!("{:x}", c as u32),
                    |t| {
                        let s = format!("{c}x{c}");
                        let v: VSs<'_> = chain(posstrs(&s, &kulmc::imp::cut(&s, 1)), &mut BoxDatumAllocator::<VSs<'_>, u32>::default());
                        alone(&v, &s, t)?;
                        let n = format!("{}", chars[(k + 1).min(chars.len() - 1)]);
                        let x = VSs::from_str(&n);
                        let y = VSs::from_str(&s);
                        two(&x, &n, &v, &s)?;
                        two(&v, &s, &y, &s)?;
                        bits(c, &v, &s)?;
                        t.state = Some(hash64(&c));
                        Ok(())
                    },
                );
            }
        },
        |w, c| {
            let ch = char::from_u32(u32::from_str_radix(c, 16).unwrap()).unwrap();
            w.case(
                || c.into(),
                |t| {
                    let s = format!("{ch}x{ch}");
                    let v: VSs<'_> = chain(posstrs(&s, &kulmc::imp::cut(&s, 1)), &mut BoxDatumAllocator::<VSs<'_>, u32>::default());
                    alone(&v, &s, t)?;
                    let k = chars.iter().position(|x| *x == ch).unwrap();
                    let n = format!("{}", chars[(k + 1).min(chars.len() - 1)]);
                    two(&VSs::from_str(&n), &n, &v, &s)?;
                    two(&v, &s, &VSs::from_str(&s), &s)?;
                    bits(ch, &v, &s)
                },
            );
        },
    );
    // Concatenation of all triples.
    let alpha = ["a", "λ"];
    let mut words = vec![];
    visit(2, &[], ctx.pick(1, 3, 4), &mut |w| {
        let mut s = String::new();
        join(&alpha, w, &mut s);
        words.push(s);
        true
    });
    let lays = owned(words.iter().flat_map(|s| cuts(s)).collect());
    let m = lays.len();
    ctx.explore(
        "concat",
        (m * m) as u64,
        64,
        ctx.threads,
        |w, i| {
            let (x, y) = (refs(&lays[i as usize / m]), refs(&lays[i as usize % m]));
            for z in &lays {
                let z = refs(z);
                w.case(|| format!("{}/{}/{}", spec(&x), spec(&y), spec(&z)), |t| concats(t, [&x, &y, &z]));
            }
        },
        |w, c| {
            let v: Vec<Vec<String>> = c.split('/').map(unspec).collect();
            w.case(|| c.into(), |t| concats(t, [&refs(&v[0]), &refs(&v[1]), &refs(&v[2])]));
        },
    );
    let long: Vec<Vec<String>> = [0usize, 1, 2, 7, 40].iter().map(|n| (0..*n).map(|i| if i % 3 == 0 { "aλ".to_string() } else { "𝄞".into() }).collect()).collect();
    let m = long.len();
    ctx.explore(
        "concat-long",
        (m * m * m) as u64,
        64,
        ctx.threads,
        |w, i| {
            let i = i as usize;
            let v = [refs(&long[i / m / m]), refs(&long[i / m % m]), refs(&long[i % m])];
            w.case(|| v.iter().map(|l| spec(l)).collect::<Vec<_>>().join("/"), |t| concats(t, [&v[0], &v[1], &v[2]]));
        },
        |w, c| {
            let v: Vec<Vec<String>> = c.split('/').map(unspec).collect();
            w.case(|| c.into(), |t| concats(t, [&refs(&v[0]), &refs(&v[1]), &refs(&v[2])]));
        },
    );
    ctx.finish()
}

type VSs<'s> = TextVec<PosStr<'s>>;

/// Against what differs in one bit of the first or of the last character.
fn bits(c: char, v: &VSs<'_>, s: &str) -> Verdict {
    for k in 0..21 {
        if let Some(d) = char::from_u32(c as u32 ^ 1 << k) {
            for o in [format!("{d}x{c}"), format!("{c}x{d}")] {
                two(v, s, &VSs::from_str(&o), &o)?;
            }
        }
    }
    Ok(())
}

/// One string as a text of every type, made by the constructors for strings.
fn from_strings(t: &mut Tally, s: &str) -> Verdict {
    let x = VSs::from_str(s);
    alone(&x, s, t)?;
    let y = TextDatumList::<'_, PosStr<'_>, u32>::from_str(s);
    alone(&y, s, t)?;
    two(&x, s, &y, s)?;
    let z = VSs::from(PosStr::from(s));
    two(&x, s, &z, s)?;
    fn counted<R: Strishy + 'static>(t: &mut Tally, s: &str, x: &VSs<'_>) -> Verdict {
        for y in [TextVec::<PosStrish<R>>::from_str(s), TextVec::from(PosStrish::from(s)), TextVec::from(PosStrish::new(R::mk(s), CharPos(7)))] {
            alone(&y, s, t)?;
            two(x, s, &y, s)?;
        }
        let y = TextDatumList::<'_, PosStrish<R>, u32>::from_str(s);
        alone(&y, s, t)?;
        two(x, s, &y, s)?;
        if R::from_str(s).as_str() != s || R::mk(s).as_str() != s || !R::empty().as_str().is_empty() {
            return Err("the counted string itself".into());
        }
        Ok(())
    }
    counted::<Rc<String>>(t, s, &x)?;
    counted::<Rc<Box<str>>>(t, s, &x)?;
    counted::<Rc<str>>(t, s, &x)?;
    counted::<Arc<String>>(t, s, &x)?;
    counted::<Arc<Box<str>>>(t, s, &x)?;
    counted::<Arc<str>>(t, s, &x)?;
    t.state = Some(hash64(&s));
    Ok(())
}
