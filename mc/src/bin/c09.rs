//! C09: every source stream obeys the peek/next/accumulate contract.

use kul::parser::{BoxDatumAllocator, DatumAllocator, SliceDatumAllocator};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{CharPos, PosStr, PosStrish, SourceStream as ChunkStream, StrPos};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, SourceIterItem, SourceStream, Text, TextBase, TextChunk};
use kulmc::engine::{dec, enc, hash64, Ctx, Tally, Verdict};
use kulmc::gappy::Gappy;
use kulmc::imp::{chain, posstrishes, posstrs, Strishy};
use kulmc::words::{visit, Split};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

/// Everything a position says: character index, byte offset, source address and length.
type Full = (usize, usize, usize, usize);

trait FullPos {
    fn full(&self) -> Full;
}
impl FullPos for StrPos<'_> {
    fn full(&self) -> Full {
        (self.char_pos, self.byte_pos, self.src.as_ptr() as usize, self.src.len())
    }
}
impl FullPos for CharPos {
    fn full(&self) -> Full {
        (self.0, 0, 0, 0)
    }
}

type It = (char, Full);

fn it<P: FullPos>(i: &SourceIterItem<P>) -> It {
    (i.ch, i.pos.full())
}

/// The four operations, uniformly for whole sources and single chunks.
trait Ops {
    fn peek(&mut self) -> Option<It>;
    fn next(&mut self) -> Option<It>;
    fn accum(&mut self) -> Option<It>;
    fn done(&mut self) -> (Vec<It>, bool);
}

struct Whole<DA, S>(DA, S);

impl<DA, S> Ops for Whole<DA, S>
where
    DA: DatumAllocator,
    S: SourceStream<DA>,
    <DA::TT as TextBase>::Pos: FullPos,
{
    fn peek(&mut self) -> Option<It> {
        self.1.peek().map(it)
    }
    fn next(&mut self) -> Option<It> {
        self.1.next().map(|x| it(&x))
    }
    fn accum(&mut self) -> Option<It> {
        self.1.next_accum(&mut self.0).expect("enough supply").map(|x| it(&x))
    }
    fn done(&mut self) -> (Vec<It>, bool) {
        let t = self.1.accum_done(&mut self.0).expect("enough supply");
        (t.iter().map(|x| it(&x)).collect(), t.is_empty())
    }
}

struct Chunk<C, S>(S, PhantomData<C>);

impl<C, S> Ops for Chunk<C, S>
where
    C: TextChunk,
    S: ChunkStream<C>,
    C::Pos: FullPos,
{
    fn peek(&mut self) -> Option<It> {
        self.0.peek().map(it)
    }
    fn next(&mut self) -> Option<It> {
        self.0.next().map(|x| it(&x))
    }
    fn accum(&mut self) -> Option<It> {
        self.0.next_accum().map(|x| it(&x))
    }
    fn done(&mut self) -> (Vec<It>, bool) {
        let c = self.0.accum_done();
        (c.src_strm().map(|x| it(&x)).collect(), c.is_empty())
    }
}

const OPS: [&str; 4] = ["peek", "next", "next_accum", "accum_done"];

/// Run the operations and compare each result with the plain model.
fn run<O: Ops>(t: &mut Tally, mut o: O, want: &[It], ops: &[usize]) -> Verdict {
    let mut at = 0;
    let mut pend = 0..0;
    for (k, &op) in ops.iter().enumerate() {
        let bad = |w: String, g: String| {
            Err(format!("operation {k} ({}) after {:?}: expected {w}, got {g}", OPS[op], ops[k.saturating_sub(40)..k].iter().map(|&x| OPS[x]).collect::<Vec<_>>()))
        };
        if op == 3 {
            let (got, empty) = o.done();
            if got[..] != want[pend.clone()] {
                return bad(format!("{:?}", &want[pend]), format!("{got:?}"));
            }
            if empty != pend.is_empty() {
                return bad(format!("emptiness {}", pend.is_empty()), format!("{empty}"));
            }
            pend = at..at;
            continue;
        }
        let next = want.get(at).copied();
        let got = match op {
            0 => o.peek(),
            1 => o.next(),
            _ => o.accum(),
        };
        if got != next {
            return bad(format!("{next:?}"), format!("{got:?}"));
        }
        match op {
            1 => {
                at = (at + 1).min(want.len());
                pend = at..at;
            }
            2 => {
                at = (at + 1).min(want.len());
                pend.end = at;
            }
            _ => {}
        }
    }
    t.traces += 1;
    t.steps += ops.len() as u64;
    t.state = Some(hash64(&(want.len(), at, pend.start, pend.end)));
    Ok(())
}

const STRISH: usize = 6;
/// Kinds of streams.
const KINDS: usize = 3 + 6 * STRISH + 3;

fn kind<R: Strishy>(t: &mut Tally, k: usize, pieces: &[&str], base: usize, ops: &[usize]) -> Verdict {
    type V<R> = TextVec<PosStrish<R>>;
    type L<'d, R> = TextDatumList<'d, PosStrish<R>, u32>;
    let s: String = pieces.concat();
    let at = |b: usize| -> Vec<It> { s.chars().enumerate().map(|(i, c)| (c, (i + b, 0, 0, 0))).collect() };
    let shifted = || -> Vec<PosStrish<R>> {
        posstrishes::<R>(pieces).into_iter().map(|c| PosStrish { pos: CharPos(c.pos.0 + base), ..c }).collect()
    };
    let strs = || -> Vec<R> { pieces.iter().map(|p| R::mk(p)).collect() };
    let mut slots: Vec<_> = Vec::new();
    if matches!(k, 1 | 3) {
        slots.extend((0..pieces.len() + 2 * ops.len() + 2).map(|_| Datum::EmptyNest));
    }
    match k {
        0 => {
            let mut da = BoxDatumAllocator::<V<R>, u32>::default();
            let text = chain(shifted(), &mut da);
            run(t, Whole(da, text.iter()), &at(base), ops)
        }
        1 => {
            let mut da = SliceDatumAllocator::<L<'_, R>, u32>::new(&mut slots);
            let text = chain(shifted(), &mut da);
            run(t, Whole(da, text.iter()), &at(base), ops)
        }
        2 => {
            let da = BoxDatumAllocator::<V<R>, u32>::default();
            run(t, Whole(da, StrishIterSourceStream::new(strs())), &at(0), ops)
        }
        3 => {
            let da = SliceDatumAllocator::<L<'_, R>, u32>::new(&mut slots);
            run(t, Whole(da, StrishIterSourceStream::new(strs())), &at(0), ops)
        }
        4 => {
            let da = BoxDatumAllocator::<V<R>, u32>::default();
            run(t, Whole(da, CharIterSourceStream::new(s.chars(), R::conv)), &at(0), ops)
        }
        _ => {
            let da = BoxDatumAllocator::<Gappy<PosStrish<R>>, u32>::default();
            let text = Gappy(shifted());
            run(t, Whole(da, text.iter()), &at(base), ops)
        }
    }
}

/// `before` is source text in front of the part that is streamed.
fn one(t: &mut Tally, k: usize, before: &str, pieces: &[&str], ops: &[usize]) -> Verdict {
    let base = before.chars().count();
    let s: String = pieces.concat();
    let whole: String = before.to_string() + &s;
    let at = || -> Vec<It> {
        s.char_indices().enumerate().map(|(i, (b, c))| (c, (i + base, b + before.len(), whole.as_ptr() as usize, whole.len()))).collect()
    };
    let chunks = || {
        let mut p = vec![before];
        p.extend(pieces);
        let mut v = posstrs(&whole, &p);
        v.remove(0);
        v
    };
    match k {
        0 => {
            let mut da = BoxDatumAllocator::<TextVec<PosStr<'_>>, u32>::default();
            let text = chain(chunks(), &mut da);
            run(t, Whole(da, text.iter()), &at(), ops)
        }
        1 => {
            let mut slots: Vec<_> = (0..pieces.len() + 2 * ops.len() + 2).map(|_| Datum::EmptyNest).collect();
            let mut da = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut slots);
            let text = chain(chunks(), &mut da);
            run(t, Whole(da, text.iter()), &at(), ops)
        }
        2 => {
            let da = BoxDatumAllocator::<Gappy<PosStr<'_>>, u32>::default();
            let text = Gappy(chunks());
            run(t, Whole(da, text.iter()), &at(), ops)
        }
        // Single chunks; the pieces play no role.
        3 => {
            let c = PosStr { val: &whole[before.len()..], pos: StrPos { src: &whole, byte_pos: before.len(), char_pos: base } };
            run(t, Chunk::<PosStr<'_>, _>(c.src_strm(), PhantomData), &at(), ops)
        }
        4 | 5 => {
            // A slice out of the middle of a counted string.
            let with_tail = whole.clone() + if k == 4 { "" } else { "é" };
            let c = PosStrish::<Arc<str>>::new(Arc::from(&with_tail[..]), CharPos(7));
            let mut st = c.src_strm();
            for _ in 0..base {
                st.next();
            }
            for _ in s.chars() {
                st.next_accum();
            }
            let mut c = st.accum_done();
            if s.is_empty() {
                c.pos = CharPos(base + 7);
            }
            let want: Vec<It> = s.chars().enumerate().map(|(i, c)| (c, (i + base + 7, 0, 0, 0))).collect();
            run(t, Chunk::<PosStrish<Arc<str>>, _>(c.src_strm(), PhantomData), &want, ops)
        }
        k => {
            let k = k - 6;
            match k % STRISH {
                0 => kind::<Rc<str>>(t, k / STRISH, pieces, base, ops),
                1 => kind::<Arc<str>>(t, k / STRISH, pieces, base, ops),
                2 => kind::<Rc<String>>(t, k / STRISH, pieces, base, ops),
                3 => kind::<Arc<String>>(t, k / STRISH, pieces, base, ops),
                4 => kind::<Rc<Box<str>>>(t, k / STRISH, pieces, base, ops),
                _ => kind::<Arc<Box<str>>>(t, k / STRISH, pieces, base, ops),
            }
        }
    }
}

/// Does this kind of stream depend on how the source is cut?
fn cuttable(k: usize) -> bool {
    k < 3 || (k >= 6 && (k - 6) / STRISH != 4)
}

/// One string of pairwise different characters of different widths, cut into
/// every sequence of at most `max` pieces of 0, 1, 2, … characters.
fn layouts(chars: usize, pieces: usize) -> Vec<Vec<String>> {
    let all: Vec<char> = "aλ▷𝄞bc\u{301}z".chars().collect();
    let mut out = vec![];
    visit(chars + 1, &[], pieces, &mut |w| {
        if w.iter().sum::<usize>() <= chars {
            let mut i = 0;
            out.push(
                w.iter()
                    .map(|&n| {
                        let s = all[i..i + n].iter().collect();
                        i += n;
                        s
                    })
                    .collect(),
            );
        }
        true
    });
    out
}

fn desc(k: usize, before: &str, pieces: &[&str], ops: &[usize]) -> String {
    format!(
        "{k}/{}/{}/{}",
        enc(before),
        pieces.iter().map(|p| enc(p)).collect::<Vec<_>>().join(","),
        ops.iter().map(|o| o.to_string()).collect::<String>()
    )
}

fn replay(w: &mut kulmc::engine::Worker<'_>, c: &str) {
    let p: Vec<&str> = c.split('/').collect();
    let before = dec(p[1]);
    let pieces: Vec<String> = p[2].split(',').map(dec).collect();
    let pieces: Vec<&str> = pieces.iter().map(|s| &s[..]).collect();
    let ops: Vec<usize> = p[3].chars().map(|c| c as usize - 48).collect();
    w.case(|| c.to_string(), |t| one(t, p[0].parse().unwrap(), &before, &pieces, &ops));
}

fn main() {
    let ctx = Ctx::new("C09");
    let kinds: Vec<usize> = (0..KINDS).collect();
    // All operation sequences of a length (their prefixes are thereby covered).
    let space = |name: &str, lays: &[Vec<String>], kinds: &[usize], len: usize, befores: &[&str]| {
        let n = lays.len() * kinds.len();
        ctx.explore(
            name,
            n as u64,
            16,
            ctx.threads,
            |w, i| {
                let k = kinds[i as usize % kinds.len()];
                let lay: Vec<&str> = lays[i as usize / kinds.len()].iter().map(|s| &s[..]).collect();
                if !cuttable(k) && lay.len() > 1 {
                    return;
                }
                for before in befores {
                    visit(4, &[], len, &mut |ops| {
                        if ops.len() == len {
                            w.case(|| desc(k, before, &lay, ops), |t| one(t, k, before, &lay, ops));
                        }
                        !w.stopped()
                    });
                }
            },
            replay,
        );
    };
    space("all-kinds", &layouts(3, 3), &kinds, ctx.pick(3, 6, 8), &["", "é"]);
    // One representative per implementation, longer.
    let reps = [0, 1, 2, 3, 5, 6, 12, 18, 24, 30, 36];
    space("longer", &layouts(3, 4), &reps, ctx.pick(5, 8, 10), &["é"]);
    space("deeper", &layouts(4, 3), &reps, ctx.pick(4, 7, 9), &[""]);
    // Long runs of empty pieces between the characters.
    let mut gaps = vec![];
    for run in ctx.pick(vec![9], vec![9, 140, 2100], vec![9, 140, 2100, 20_000]) {
        for at in 0..4usize {
            let mut v = vec![String::new(); run];
            for (i, c) in ["a", "λ", "▷"].iter().enumerate() {
                v.insert(if i < at { i } else { v.len() }, c.to_string());
            }
            gaps.push(v);
        }
    }
    space("gaps", &gaps, &reps, ctx.pick(3, 5, 5), &["é"]);
    // u·v^k·w operations on long sources.
    let long: Vec<Vec<String>> = ["x|λy", "λ", "x||y|z▷", "abcd"]
        .iter()
        .map(|p| p.split('|').map(|s| s.to_string()).cycle().take(24).collect())
        .collect();
    let sp = Split::new(4, ctx.pick(2, 4, 5), 1000);
    ctx.explore(
        "pumped",
        sp.items(),
        16,
        ctx.threads,
        |w, i| {
            sp.visit(i, &mut |v| {
                if v.is_empty() {
                    return true;
                }
                for reps_ in [5, 70] {
                    visit(4, &[], 1, &mut |u| {
                        visit(4, &[], 2, &mut |x| {
                            let mut ops = u.to_vec();
                            for _ in 0..reps_ {
                                ops.extend(v);
                            }
                            ops.extend(x);
                            for &k in &reps {
                                for lay in &long {
                                    let lay: Vec<&str> = lay.iter().map(|s| &s[..]).collect();
                                    if cuttable(k) || lay[0] == "abcd" {
                                        w.case(|| desc(k, "é", &lay, &ops), |t| one(t, k, "é", &lay, &ops));
                                    }
                                }
                            }
                            !w.stopped()
                        });
                        !w.stopped()
                    });
                }
                !w.stopped()
            });
        },
        replay,
    );
    // The same on very long sources.
    let mut lengths: Vec<(usize, usize)> = kulmc::spaces::lengths(&ctx, 1024).into_iter().filter(|&n| n > 0).flat_map(|n| [(n, 7), (3 * n + 2, n)]).collect();
    lengths.extend(ctx.pick(&[][..], &[(70_000, 7), (70_000, 5_000), (1_100_000, 5_000)], &[(70_000, 7), (70_000, 5_000), (1_100_000, 5_000), (5_000_000, 60_000)]));
    let mut vs = vec![];
    visit(4, &[], 2, &mut |v| {
        if v.iter().any(|&o| o == 1 || o == 2) {
            vs.push(v.to_vec());
        }
        true
    });
    let vast = |t: &mut Tally, i: usize| {
        let (n, size) = lengths[i / vs.len() / reps.len()];
        let k = reps[i / vs.len() % reps.len()];
        let s: Vec<char> = "aλ▷x𝄞".chars().cycle().take(n).collect();
        let p: Vec<String> = s.chunks(size).map(|c| c.iter().collect()).collect();
        let mut p: Vec<&str> = p.iter().map(|x| &x[..]).collect();
        if (n + size) % 2 == 0 {
            // With empty pieces.
            p = p.iter().flat_map(|x| ["", *x]).chain([""]).collect();
        }
        let mut ops: Vec<usize> = vs[i % vs.len()].iter().copied().cycle().take(n * 2).collect();
        ops.extend([0, 3, 2, 1, 3]);
        one(t, k, "é", &p, &ops)
    };
    ctx.explore(
        "vast",
        (lengths.len() * reps.len() * vs.len()) as u64,
        64,
        ctx.threads.min(4),
        |w, i| w.case(|| i.to_string(), |t| vast(t, i as usize)),
        |w, c| w.case(|| c.into(), |t| vast(t, c.parse().unwrap())),
    );
    ctx.finish()
}
