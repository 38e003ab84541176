//! Input spaces shared by the checks.

use crate::engine::{dec, enc, Ctx, Tally, Tier, Verdict};
use crate::words::{join, strings, Split};

/// The delimiters, one whitespace, two ordinary characters (one multi-byte).
pub const BASE: &[&str] = &["{", "}", "\\", " ", "a"];
pub const BASE2: &[&str] = &["{", "}", "\\", " ", "a", "λ"];
/// Characters of every UTF-8 width, several kinds of whitespace, oddities.
pub const UNI: &[&str] = &[
    "{", "}", "\\", " ", "\n", "\u{3000}", "a", "b", "λ", "▷", "𝄞", "\0", "\u{feff}", "\u{301}",
];

/// Rebuild an input from its description.
pub fn input_of(spec: &str) -> String {
    let p: Vec<&str> = spec.split(':').collect();
    match p[0] {
        "w" => dec(p[1]),
        "p" => dec(p[1]) + &dec(p[2]).repeat(p[3].parse().unwrap()) + &dec(p[4]),
        "n" => {
            let k: usize = p[3].parse().unwrap();
            dec(p[1]) + &dec(p[2]).repeat(k) + &dec(p[4]) + &dec(p[5]).repeat(k) + &dec(p[6])
        }
        _ => panic!("bad input description {spec}"),
    }
}

pub fn spec_w(s: &str) -> String {
    format!("w:{}", enc(s))
}

/// Split a description into the input's and the variant's number.
pub fn variant_of(case: &str) -> (&str, usize) {
    match case.split_once('#') {
        Some((a, b)) => (a, b.parse().expect("variant")),
        None => (case, 0),
    }
}

/// Every word over `alpha` up to `max` symbols, once per variant.
pub fn inputs_v<F>(ctx: &Ctx, fam: &str, alpha: &[&str], max: usize, variants: usize, f: F)
where
    F: Fn(&mut Tally, &str, usize) -> Verdict + Sync,
{
    let sp = Split::new(alpha.len(), max, 4000);
    ctx.explore(
        fam,
        sp.items(),
        64,
        ctx.threads,
        |w, i| {
            let mut s = String::new();
            sp.visit(i, &mut |word| {
                join(alpha, word, &mut s);
                for v in 0..variants {
                    w.case(|| format!("{}#{v}", spec_w(&s)), |t| f(t, &s, v));
                }
                !w.stopped()
            });
        },
        |w, case| {
            let (spec, v) = variant_of(case);
            let s = input_of(spec);
            w.case(|| case.to_string(), |t| f(t, &s, v));
        },
    );
}

/// Every word over `alpha` up to `max` symbols.
pub fn inputs<F>(ctx: &Ctx, fam: &str, alpha: &[&str], max: usize, f: F)
where
    F: Fn(&mut Tally, &str) -> Verdict + Sync,
{
    inputs_v(ctx, fam, alpha, max, 1, |t, s, _| f(t, s))
}

/// Every word u·v^k·w.
pub fn pumped<F>(ctx: &Ctx, fam: &str, us: &[String], vs: &[String], ws: &[String], ks: &[usize], stack_mb: usize, threads: usize, f: F)
where
    F: Fn(&mut Tally, &str) -> Verdict + Sync,
{
    pumped_v(ctx, fam, us, vs, ws, ks, stack_mb, threads, 1, |t, s, _| f(t, s))
}

pub fn pumped_v<F>(ctx: &Ctx, fam: &str, us: &[String], vs: &[String], ws: &[String], ks: &[usize], stack_mb: usize, threads: usize, variants: usize, f: F)
where
    F: Fn(&mut Tally, &str, usize) -> Verdict + Sync,
{
    let n = us.len() * vs.len() * ks.len();
    ctx.explore(
        fam,
        n as u64,
        stack_mb,
        threads,
        |w, i| {
            let i = i as usize;
            let k = ks[i % ks.len()];
            let v = &vs[i / ks.len() % vs.len()];
            let u = &us[i / ks.len() / vs.len()];
            let uv = u.clone() + &v.repeat(k);
            for x in ws {
                if w.stopped() {
                    return;
                }
                let s = uv.clone() + x;
                for r in 0..variants {
                    w.case(|| format!("p:{}:{}:{k}:{}#{r}", enc(u), enc(v), enc(x)), |t| f(t, &s, r));
                }
            }
        },
        |w, case| {
            let (spec, v) = variant_of(case);
            let s = input_of(spec);
            w.case(|| case.to_string(), |t| f(t, &s, v));
        },
    );
}

/// Every word pre·open^k·mid·close^k·post.
pub fn nested<F>(
    ctx: &Ctx,
    fam: &str,
    pres: &[String],
    opens: &[String],
    mids: &[String],
    closes: &[String],
    posts: &[String],
    ks: &[usize],
    stack_mb: usize,
    threads: usize,
    f: F,
) where
    F: Fn(&mut Tally, &str) -> Verdict + Sync,
{
    nested_v(ctx, fam, pres, opens, mids, closes, posts, ks, stack_mb, threads, 1, |t, s, _| f(t, s))
}

/// Every word pre·open^k·mid·close^k·post.
pub fn nested_v<F>(
    ctx: &Ctx,
    fam: &str,
    pres: &[String],
    opens: &[String],
    mids: &[String],
    closes: &[String],
    posts: &[String],
    ks: &[usize],
    stack_mb: usize,
    threads: usize,
    variants: usize,
    f: F,
) where
    F: Fn(&mut Tally, &str, usize) -> Verdict + Sync,
{
    let n = pres.len() * opens.len() * closes.len() * ks.len();
    ctx.explore(
        fam,
        n as u64,
        stack_mb,
        threads,
        |w, i| {
            let i = i as usize;
            let k = ks[i % ks.len()];
            let i = i / ks.len();
            let c = &closes[i % closes.len()];
            let i = i / closes.len();
            let o = &opens[i % opens.len()];
            let p = &pres[i / opens.len()];
            for m in mids {
                for q in posts {
                    if w.stopped() {
                        return;
                    }
                    let s = p.clone() + &o.repeat(k) + m + &c.repeat(k) + q;
                    for r in 0..variants {
                        w.case(|| format!("n:{}:{}:{k}:{}:{}:{}#{r}", enc(p), enc(o), enc(m), enc(c), enc(q)), |t| f(t, &s, r));
                    }
                }
            }
        },
        |w, case| {
            let (spec, v) = variant_of(case);
            let s = input_of(spec);
            w.case(|| case.to_string(), |t| f(t, &s, v));
        },
    );
}

/// Characters that could be taken for special by mistake: all of ASCII, all
/// whitespace, invisible, combining and look-alike characters, and those at the
/// edges of ranges and of lengths in encodings.
pub fn wide() -> Vec<char> {
    let mut v: Vec<char> = (0..0x80).map(char::from).collect();
    let more = [
        0x80, 0x85, 0x9b, 0xa0, 0xab, 0xad, 0xbb, 0xe9, 0xff, 0x100, 0x15c, 0x17b, 0x17d, 0x300, 0x301, 0x37e, 0x3bb, 0x61c, 0x7ff, 0x800, 0x1680, 0x180e, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008,
        0x2009, 0x200a, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202a, 0x202e, 0x202f, 0x205f, 0x2060, 0x2215, 0x2216, 0x2774, 0x2775, 0x2800, 0x29f5, 0x3000, 0x3164, 0xd7ff, 0xe000, 0xfe0f, 0xfe5b, 0xfe5c,
        0xfe68, 0xfeff, 0xff3c, 0xff5b, 0xff5d, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1007b, 0x1005c, 0x1d11e, 0x1f600, 0xe0001, 0xe0020, 0x10fffe, 0x10ffff,
    ];
    v.extend(more.iter().filter_map(|c| char::from_u32(*c)));
    v
}

/// Words with two open places (`□`), each to be filled with each character.
pub const SLOTS: &[&str] = &[
    "□□", "x□□", "{□□}", "{a□□}", "{a□□b}", "{a □□}", "{a □b□}", "a□□{b}", "{□{}□}", "{{}□□}", "{{}□b□}", "\\□□", "{\\□□}", "{a\\□□}", "{a \\□\\□}", "□}□", "{a□}□", "□{a}□", "{a□", "{a{b□}□}", "{a \\□□x}", "{a□\\□}",
];
/// The same with macros' heads.
pub const SLOTS_MACROS: &[&str] = &["{o□□}", "{o □□}", "{□o□}", "{p□□}", "{p □□}", "{p □{o}□}", "{o□}□", "{p {o□}□}", "{o\\□□}", "{p \\□□}"];

pub fn slots_v<F>(ctx: &Ctx, fam: &str, skeletons: &[&str], chars: &[char], threads: usize, variants: usize, f: F)
where
    F: Fn(&mut Tally, &str, usize) -> Verdict + Sync,
{
    let all = if ctx.tier == Tier::Smoke { chars.to_vec() } else { wide() };
    let n = skeletons.len() * all.len();
    ctx.explore(
        fam,
        n as u64,
        16,
        threads,
        |w, i| {
            let i = i as usize;
            let k = skeletons[i / all.len()];
            let first = all[i % all.len()];
            let half = k.replacen('□', &first.to_string(), 1);
            for c in if chars.contains(&first) { &all[..] } else { chars } {
                if w.stopped() {
                    return;
                }
                let s = half.replacen('□', &c.to_string(), 1);
                for v in 0..variants {
                    w.case(|| format!("{}#{v}", spec_w(&s)), |t| f(t, &s, v));
                }
            }
        },
        |w, case| {
            let (spec, v) = variant_of(case);
            let s = input_of(spec);
            w.case(|| case.to_string(), |t| f(t, &s, v));
        },
    );
}

/// All of them, or every so many (for passes that look only roughly).
pub fn wide_by(step: usize) -> Vec<char> {
    wide().into_iter().step_by(step).collect()
}

/// Every number up to some, and those around powers of two up to `max`.
pub fn lengths(ctx: &Ctx, max: usize) -> Vec<usize> {
    let (all, max, near) = ctx.pick((9, 9, 0), (140, max, 1), (600, 4 * max, 2));
    let mut v: Vec<usize> = (0..=all).collect();
    for p in (0..40).map(|j| 1usize << j).filter(|&p| p > all && p <= max) {
        v.extend(p - near..=p + near);
    }
    v
}

/// Texts, siblings, escapes and nests of every length.
pub fn lengths_v<F>(ctx: &Ctx, macros: bool, max: usize, deep: usize, variants: usize, f: F)
where
    F: Fn(&mut Tally, &str, usize) -> Verdict + Sync,
{
    let some = |v: &[&str], more: usize| sv(if macros { v } else { &v[..v.len() - more] });
    let us = some(&["", "{", "{a ", "{o ", "{p "], 2);
    let vs = some(&["a", "λ", " ", "\\a", "{}", "{a}", "}", "{o x}", "{p y}"], 2);
    pumped_v(ctx, "lengths", &us, &vs, &sv(&["", "}", "{b}"]), &lengths(ctx, max), 256, ctx.threads, variants, &f);
    let mut ks = lengths(ctx, deep);
    ks.retain(|&k| k <= 2 * deep);
    nested_v(ctx, "depths", &sv(&[""]), &some(&["{", "{a ", "{a b", "{o ", "{p "], 2), &sv(&["x"]), &sv(&["}", ""]), &sv(&["", "}"]), &ks, 512, ctx.threads, variants, &f);
}

pub fn sv(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// The standard collection of input spaces for checks whose subject is a single
/// input: short words, Unicode words, pumped words, deep and huge words.
pub struct Bounds {
    pub base: usize,
    pub uni: usize,
    pub pump_u: usize,
    pub pump_v: usize,
    pub pump_ks: &'static [usize],
    pub huge: &'static [usize],
    pub deep: &'static [usize],
}

pub fn standard<F>(ctx: &Ctx, b: &Bounds, f: F)
where
    F: Fn(&mut Tally, &str) -> Verdict + Sync,
{
    inputs(ctx, "short", BASE, b.base, &f);
    inputs(ctx, "unicode", UNI, b.uni, &f);
    slots_v(ctx, "slots", SLOTS, &wide_by(ctx.pick(29, 1, 1)), ctx.threads, 1, |t, s, _| f(t, s));
    let us = strings(BASE2, 0, b.pump_u);
    let vs = strings(BASE2, 1, b.pump_v);
    pumped(ctx, "pumped", &us, &vs, &us, b.pump_ks, 64, ctx.threads, &f);
    let open = sv(&["{", "{a", "{a ", "{ ", "{{}", "{{} ", "{λ\\}", "{a b{c}d", "{{a} ", "\\{{"]);
    let close = sv(&["}", " }", "b}", "{}}", "\\}}", "{a}}", " x}", "}}"]);
    let mid = sv(&["", "a", " ", "{}", "\\"]);
    let pre = sv(&["", "x", "{}"]);
    let post = sv(&["", "}", " y", "{z}"]);
    nested(ctx, "nested", &pre, &open, &mid, &close, &post, b.deep, 512, ctx.threads, &f);
    lengths_v(ctx, false, 1 << 13, 300, 1, |t, s, _| f(t, s));
    if !b.huge.is_empty() {
        let e = sv(&[""]);
        let vs = strings(BASE2, 1, 2);
        let w = sv(&["", "}"]);
        pumped(ctx, "huge", &sv(&["", "{a ", "{"]), &vs, &w, b.huge, 2048, ctx.threads, &f);
        let vs = sv(&["{a}", "{}b", "\\}\\{", "a\\λ", "{a }", "{a b{c}}", "𝄞\\𝄞 ", "} {"]);
        pumped(ctx, "huge2", &sv(&["", "{a ", "{"]), &vs, &w, b.huge, 2048, ctx.threads, &f);
        let op = sv(&["{", "{a ", "{{} "]);
        nested(ctx, "hugenest", &e, &op, &sv(&["", "b"]), &sv(&["}"]), &sv(&["", "}z"]), b.huge, 3000, ctx.threads.min(4), &f);
    }
}
