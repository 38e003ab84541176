//! C20: every form can be written down and read back unchanged.

use kul::source_stream::CharIterSourceStream;
use kul::parser::{BoxDatumAllocator, DefaultCharClassifier};
use kul::text::chunk::PosStrish;
use kul::text::TextVec;
use kul::Parser;
use kulmc::conv::items_diff;
use kulmc::engine::{dec, enc, hash64, Ctx, Tally, Verdict};
use kulmc::imp::{drive, hash_bindings, run, run_default, Alloc, Bind, Cfg, Log, Req, Src, Str, Txt};
use kulmc::model::{default_class, mtext, Class, Effect, Item, Kind, Macro, M};
use kulmc::spaces::{inputs_v, lengths_v, nested_v, pumped_v, slots_v, sv, wide_by, BASE2, SLOTS, UNI};
use kulmc::tables::mac;
use kulmc::words::{strings, Split, join};
use std::rc::Rc;

fn special(c: char) -> bool {
    matches!(default_class(c), Class::Start | Class::End | Class::Escape)
}

/// Writes forms, deciding at each optional place by the next bit.
struct Writer {
    bits: u64,
    used: u32,
    out: String,
}
impl Writer {
    fn choice(&mut self) -> bool {
        let b = self.bits >> (self.used % 64) & 1 == 1;
        self.used += 1;
        b
    }
    fn ch(&mut self, c: char, must: bool) {
        if must || self.choice() {
            self.out.push('\\');
        }
        self.out.push(c);
    }
    fn text(&mut self, s: &str) {
        for c in s.chars() {
            self.ch(c, special(c));
        }
    }
    /// A text as head: whitespace would end it.
    fn head_text(&mut self, s: &str) {
        for c in s.chars() {
            self.ch(c, special(c) || default_class(c) == Class::Space);
        }
    }
    fn form(&mut self, m: &M) {
        match m {
            M::Text(t) => self.text(&kulmc::model::chars(t)),
            M::EmptyNest => {
                self.out.push('{');
                if self.choice() {
                    self.out.push_str(" \u{3000}");
                }
                self.out.push('}');
            }
            M::Comb(b) => {
                self.out.push('{');
                if self.choice() {
                    self.out.push_str("\n ");
                }
                let text = match &b.0 {
                    M::Text(t) => {
                        self.head_text(&kulmc::model::chars(t));
                        true
                    }
                    x => {
                        self.form(x);
                        false
                    }
                };
                let M::List(ops) = &b.1 else { panic!("operands") };
                // A separator is needed before a text, unless the head is a nest
                // and the text does not begin with whitespace.
                let need = match ops.first() {
                    Some(M::Text(t)) => text || t.first().is_some_and(|x| default_class(x.0) == Class::Space),
                    _ => false,
                };
                if need || self.choice() {
                    let sep = if self.choice() { '\u{2028}' } else { ' ' };
                    self.out.push(sep);
                }
                for x in ops {
                    self.form(x);
                }
                self.out.push('}');
            }
            _ => panic!("not writable"),
        }
    }
}

/// The number of choices there are in writing these forms, and the result for some.
fn write(forms: &[M], bits: u64) -> (String, u32) {
    let mut w = Writer { bits, used: 0, out: String::new() };
    for f in forms {
        w.form(f);
    }
    (w.out, w.used)
}

fn cfgs() -> Vec<Cfg> {
    vec![
        Cfg { src: Src::PosStr, alloc: Alloc::Box, txt: Txt::Vec, bind: Bind::Hash },
        Cfg { src: Src::PosStr, alloc: Alloc::Slice, txt: Txt::List, bind: Bind::Pair },
        Cfg { src: Src::StrishText(Str::ArcString), alloc: Alloc::Arc, txt: Txt::Vec, bind: Bind::Hash },
        Cfg { src: Src::Strish(Str::RcString), alloc: Alloc::Rc, txt: Txt::Vec, bind: Bind::Pair },
        Cfg { src: Src::Strish(Str::ArcStr), alloc: Alloc::Slice, txt: Txt::List, bind: Bind::Pair },
        Cfg { src: Src::Chars(Str::RcBox), alloc: Alloc::Box, txt: Txt::Vec, bind: Bind::Hash },
    ]
}

/// What was written must be read back.
fn back(t: &mut Tally, s: &str, forms: &[Item], way: usize) -> Verdict {
    let n = s.chars().count();
    let got = if way == 0 {
        run_default(s, &[])?.items
    } else {
        let mask = [0, 0, u64::MAX, 0x5555_5555_5555_5555, 0x4924_9249_2492_4924, 0][way];
        let pieces = kulmc::imp::cut(s, mask);
        let req = Req { whole: s, pieces: &pieces, macros: &[], cap: n + 1, hook: None, slots: 6 * n + 8 };
        run(cfgs()[way], &req)?.items
    };
    t.traces += 1;
    t.steps += n as u64;
    t.state = Some(hash64(forms));
    if let Some(m) = items_diff(forms, &got, false) {
        return Err(format!("written {s:?} (way {way}): {m}"));
    }
    Ok(())
}

/// Sequences of forms with given number of inner nodes: no empty text, no two
/// adjacent texts (they would be one).
fn sequences(nodes: usize, texts: &[M], max_len: usize) -> Vec<Vec<M>> {
    let mut v: Vec<Vec<M>> = vec![];
    if nodes == 0 {
        v.push(vec![]);
    }
    for len in 1..=max_len {
        fill(nodes, len, texts, &mut vec![], &mut v);
    }
    v
}
fn fill(nodes: usize, len: usize, texts: &[M], cur: &mut Vec<M>, out: &mut Vec<Vec<M>>) {
    if len == 0 {
        if nodes == 0 {
            out.push(cur.clone());
        }
        return;
    }
    if !matches!(cur.last(), Some(M::Text(_))) {
        for x in texts {
            cur.push(x.clone());
            fill(nodes, len - 1, texts, cur, out);
            cur.pop();
        }
    }
    for k in 1..=nodes {
        for f in combs(k, texts) {
            cur.push(f);
            fill(nodes - k, len - 1, texts, cur, out);
            cur.pop();
        }
    }
}
/// Nests with so many nests in them, themselves included.
fn combs(nodes: usize, texts: &[M]) -> Vec<M> {
    let mut v = vec![];
    if nodes == 1 {
        v.push(M::EmptyNest);
    }
    for k in 0..nodes {
        let heads = if k == 0 { texts.to_vec() } else { combs(k, texts) };
        let ops = sequences(nodes - 1 - k, texts, 3);
        for h in &heads {
            for o in &ops {
                v.push(M::Comb(Box::new((h.clone(), M::List(o.clone())))));
            }
        }
    }
    v
}

/// Every character of the source is in the result exactly once, at its place,
/// unless it is an unescaped delimiter or whitespace around a head.
fn conserved(t: &mut Tally, s: &str, macros: &[Macro], way: usize) -> Verdict {
    let src: Vec<char> = s.chars().collect();
    let items = match way {
        0 => run_default(s, macros)?.items,
        _ => {
            let log: Log = Default::default();
            let mut da = BoxDatumAllocator::<TextVec<PosStrish<Rc<str>>>, u32>::default();
            let bindings = hash_bindings(macros, &log, None, &mut da);
            let mut p = Parser { classifier: DefaultCharClassifier, allocator: da, bindings };
            drive(&mut p, CharIterSourceStream::new(s.chars(), kul::source_stream::to_rc_str), src.len() + 1)?
        }
    };
    t.traces += 1;
    t.steps += src.len() as u64;
    t.state = Some(hash64(&items));
    let mut seen: Vec<(char, u32)> = vec![];
    fn gather(m: &M, v: &mut Vec<(char, u32)>) {
        match m {
            M::Text(t) => v.extend(t),
            M::Comb(b) => {
                gather(&b.0, v);
                gather(&b.1, v);
            }
            M::List(l) => l.iter().for_each(|x| gather(x, v)),
            _ => {}
        }
    }
    let mut ok = true;
    for i in &items {
        match i {
            Ok(m) => gather(m, &mut seen),
            Err(_) => ok = false,
        }
    }
    for w in seen.windows(2) {
        if w[0].1 >= w[1].1 {
            return Err(format!("characters {:?} and {:?} are duplicated or out of order", w[0], w[1]));
        }
    }
    for (c, i) in &seen {
        if src.get(*i as usize) != Some(c) {
            return Err(format!("character {c:?} is said to come from {i}"));
        }
    }
    if !ok {
        return Ok(());
    }
    // Which characters are escaped.
    let mut esc = vec![false; src.len()];
    let mut i = 0;
    while i < src.len() {
        if src[i] == '\\' {
            if i + 1 < src.len() {
                esc[i + 1] = true;
            }
            i += 1;
        }
        i += 1;
    }
    let space = |i: usize| !esc[i] && default_class(src[i]) == Class::Space;
    let mut k = 0;
    for i in 0..src.len() {
        if k < seen.len() && seen[k].1 as usize == i {
            k += 1;
            continue;
        }
        let may = !esc[i]
            && (special(src[i])
                || (space(i) && {
                    // Before a head, or the first one after it.
                    let mut j = i;
                    while j > 0 && space(j - 1) {
                        j -= 1;
                    }
                    j == i || (j > 0 && src[j - 1] == '{' && !esc[j - 1])
                }));
        if !may {
            return Err(format!("character {:?} at {i} is lost", src[i]));
        }
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C20");
    // Texts: every word, at top level, as head and as operand.
    let places = |s: &str| -> Vec<Vec<M>> {
        let x = || mtext(s);
        let c = |a: M, b: Vec<M>| M::Comb(Box::new((a, M::List(b))));
        vec![vec![x()], vec![c(x(), vec![])], vec![c(mtext("h"), vec![x()])], vec![c(M::EmptyNest, vec![x()])], vec![c(x(), vec![x()]), x()]]
    };
    let spelled = |t: &mut Tally, s: &str, way: usize, few: u32| -> Verdict {
        if s.is_empty() {
            return Ok(());
        }
        for forms in places(s) {
            let items: Vec<Item> = forms.iter().cloned().map(Ok).collect();
            let n = write(&forms, 0).1;
            // All choices when few, else none, all, and each alone.
            let all: Vec<u64> = if n <= few { (0..1 << n).collect() } else { vec![0, u64::MAX, 0x5555_5555_5555_5555, 0x9249_2492_4924_9249] };
            for bits in all {
                back(t, &write(&forms, bits).0, &items, way)?;
            }
        }
        Ok(())
    };
    let text_case = |t: &mut Tally, s: &str, way: usize| spelled(t, s, way, 8);
    inputs_v(&ctx, "texts", BASE2, ctx.pick(3, 5, 6), 1, |t, s, v| text_case(t, s, v));
    inputs_v(&ctx, "texts_unicode", UNI, ctx.pick(2, 3, 4), 6, |t, s, v| text_case(t, s, v));
    slots_v(&ctx, "texts_wide", &["□□", "a□□b", "{a□□", "\\□□"], &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 1, |t, s, v| spelled(t, s, v, 4));
    let vs = strings(BASE2, 1, 3);
    pumped_v(&ctx, "texts_pumped", &sv(&["", "a"]), &vs, &sv(&["", "}"]), ctx.pick(&[9], &[9, 70], &[9, 70, 400]), 64, ctx.threads, 6, |t, s, v| text_case(t, s, v));
    pumped_v(&ctx, "texts_huge", &sv(&[""]), &sv(&["a", "{", "\\", "λ}", " ", "𝄞a"]), &sv(&[""]), ctx.pick(&[], &[5_000, 70_000], &[5_000, 70_000, 300_000]), 64, ctx.threads, 1, |t, s, v| text_case(t, s, v));
    ctx.explore(
        "scalars",
        0x110,
        16,
        ctx.threads,
        |w, i| {
            for c in (i as u32 * 0x1000..(i as u32 + 1) * 0x1000).step_by(ctx.pick(11, 1, 1)).filter_map(char::from_u32) {
                let s = c.to_string();
                w.case(|| enc(&s), |t| spelled(t, &s, 0, 2));
                if w.stopped() {
                    return;
                }
            }
        },
        |w, case| {
            let s = dec(case);
            w.case(|| case.into(), |t| spelled(t, &s, 0, 2));
        },
    );
    // Trees.
    let sets: [(&[&str], usize, usize); 3] = [
        (&["a", " ", "{", "\\}λ", "\u{3000}b "], ctx.pick(1, 2, 2), 3),
        (&["a", " }"], ctx.pick(2, 3, 3), 3),
        (&["a"], ctx.pick(3, 4, 5), 2),
    ];
    for (k, (texts, nodes, len)) in sets.iter().enumerate() {
        let texts: Vec<M> = texts.iter().map(|s| mtext(s)).collect();
        let mut seqs = vec![];
        for n in 0..=*nodes {
            seqs.extend(sequences(n, &texts, *len));
        }
        let one = |t: &mut Tally, i: usize, bits: u64, way: usize| {
            let items: Vec<Item> = seqs[i].iter().cloned().map(Ok).collect();
            back(t, &write(&seqs[i], bits).0, &items, way)
        };
        ctx.explore(
            &format!("trees-{k}"),
            seqs.len() as u64,
            16,
            ctx.threads,
            |w, i| {
                let n = write(&seqs[i as usize], 0).1;
                let full = ctx.pick(3, 4, 8);
                for b in 0..(1u64 << n.min(full)) + 2 {
                    let bits = match b >> n.min(full) {
                        0 => b,
                        _ => [u64::MAX, 0xaaaa_aaaa_aaaa_aaaa][(b & 1) as usize],
                    };
                    for way in [0, 1 + (b as usize + i as usize) % 5] {
                        w.case(|| format!("{i}/{bits}/{way}"), |t| one(t, i as usize, bits, way));
                    }
                    if w.stopped() {
                        return;
                    }
                }
            },
            |w, case| {
                let p: Vec<u64> = case.split('/').map(|x| x.parse().unwrap()).collect();
                w.case(|| case.into(), |t| one(t, p[0] as usize, p[1], p[2] as usize));
            },
        );
    }
    // Nothing is lost in any input.
    let mut tabs = vec![vec![], vec![mac(mtext("o"), Kind::Operative, Effect::Wrap), mac(mtext("p"), Kind::Applicative, Effect::Wrap)]];
    tabs.push(vec![mac(mtext("o"), Kind::Operative, Effect::Wrap), mac(M::EmptyNest, Kind::Operative, Effect::Wrap)]);
    let al = ["{", "}", "\\", " ", "o", "p", "λ"];
    let sp = Split::new(al.len(), ctx.pick(4, 8, 9), 4000);
    ctx.explore(
        "kept",
        sp.items(),
        16,
        ctx.threads,
        |w, i| {
            let mut s = String::new();
            sp.visit(i, &mut |word| {
                join(&al, word, &mut s);
                for v in 0..tabs.len() {
                    let way = (word.len() + v) % 2;
                    w.case(|| format!("{}/{v}/{way}", enc(&s)), |t| conserved(t, &s, &tabs[v], way));
                }
                !w.stopped()
            });
        },
        |w, case| {
            let p: Vec<&str> = case.split('/').collect();
            let s = dec(p[0]);
            w.case(|| case.into(), |t| conserved(t, &s, &tabs[p[1].parse::<usize>().unwrap()], p[2].parse().unwrap()));
        },
    );
    slots_v(&ctx, "kept_wide", SLOTS, &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 2, |t, s, v| conserved(t, s, &tabs[v], v));
    let us = strings(&["{", "a", " ", "\\"], 0, 2);
    let vs = strings(BASE2, 1, 3);
    pumped_v(&ctx, "kept_pumped", &us, &vs, &us, ctx.pick(&[9], &[9, 50], &[9, 50, 300]), 64, ctx.threads, 2, |t, s, v| conserved(t, s, &tabs[v], v));
    pumped_v(&ctx, "kept_huge", &sv(&["", "{a ", "{o ", "{"]), &vs[..42], &sv(&["", "}"]), ctx.pick(&[], &[5_000, 70_000], &[5_000, 70_000, 300_000]), 2048, ctx.threads, 2, |t, s, v| conserved(t, s, &tabs[v], v));
    nested_v(&ctx, "kept_nested", &sv(&["", "x"]), &sv(&["{", "{a ", "{ a  ", "{{} ", "{o "]), &sv(&["", " b"]), &sv(&["}", " }", "c}"]), &sv(&["", "y"]), ctx.pick(&[5], &[5, 60, 300], &[5, 60, 300, 900]), 256, ctx.threads, 2, |t, s, v| conserved(t, s, &tabs[v], v));
    lengths_v(&ctx, true, 1 << 11, 300, 2, |t, s, v| if v == 0 { conserved(t, s, &tabs[1], v) } else { spelled(t, s, 0, 0) });
    ctx.finish()
}
