//! C16: delimiters are freely configurable and only the configured ones matter.

use kul::parser::{BoxDatumAllocator, CharClassifier, DefaultCharClassifier, SliceDatumAllocator};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, Parser, Text};
use kulmc::conv::{calls_diff, items_diff};
use kulmc::engine::{dec, enc, hash64, Ctx, Tally, Verdict};
use kulmc::imp::{drive, hash_bindings, pair_bindings, Log};
use kulmc::model::{self, default_class, mtext, Class, Effect, Kind, Macro};
use kulmc::tables::mac;
use kulmc::words::{visit, Split};
use std::rc::Rc;

const ROLES: [Class; 5] = [Class::Start, Class::End, Class::Escape, Class::Space, Class::Other];

/// A classifier given by any function.
struct By<F>(F);
impl<F: Fn(char) -> Class> CharClassifier for By<F> {
    fn is_nest_start(&self, c: char) -> bool {
        (self.0)(c) == Class::Start
    }
    fn is_nest_end(&self, c: char) -> bool {
        (self.0)(c) == Class::End
    }
    fn is_nest_escape(&self, c: char) -> bool {
        (self.0)(c) == Class::Escape
    }
    fn is_whitespace(&self, c: char) -> bool {
        (self.0)(c) == Class::Space
    }
}

/// Parse with a classifier in one of several ways and compare.
fn check<CC: CharClassifier>(t: &mut Tally, s: &str, cls: &dyn Fn(char) -> Class, cc: CC, macros: &[Macro], way: usize) -> Verdict {
    let src: Vec<char> = s.chars().collect();
    let want = model::parse(&src, cls, macros);
    let log: Log = Default::default();
    let cap = src.len() + 1;
    type V<C> = TextVec<C>;
    let (got, pos) = match way {
        0 => {
            let mut da = BoxDatumAllocator::<V<PosStr<'_>>, u32>::default();
            let bindings = hash_bindings(macros, &log, None, &mut da);
            let mut p = Parser { classifier: cc, allocator: da, bindings };
            let x = V::<PosStr<'_>>::from_str(s);
            (drive(&mut p, x.iter(), cap)?, true)
        }
        1 => {
            let mut da = BoxDatumAllocator::<V<PosStrish<Rc<str>>>, u32>::default();
            let bindings = hash_bindings(macros, &log, None, &mut da);
            let mut p = Parser { classifier: cc, allocator: da, bindings };
            let st = StrishIterSourceStream::new(s.chars().map(|c| Rc::<str>::from(c.to_string())));
            (drive(&mut p, st, cap)?, true)
        }
        2 => {
            let mut da = BoxDatumAllocator::<V<PosStrish<Rc<String>>>, u32>::default();
            let bindings = pair_bindings(macros, &log, None, &mut da);
            let mut p = Parser { classifier: cc, allocator: da, bindings };
            let st = CharIterSourceStream::new(s.chars(), kul::source_stream::to_rc_string);
            (drive(&mut p, st, cap)?, true)
        }
        _ => {
            let mut slots: Vec<_> = (0..4 * src.len() + 8).map(|_| Datum::EmptyNest).collect();
            let mut da = SliceDatumAllocator::<TextDatumList<'_, PosStr<'_>, u32>, u32>::new(&mut slots);
            let bindings = pair_bindings(macros, &log, None, &mut da);
            let mut p = Parser { classifier: cc, allocator: da, bindings };
            let x = TextDatumList::<PosStr<'_>, u32>::from_str(s);
            (drive(&mut p, x.iter(), cap)?, true)
        }
    };
    t.traces += 1;
    t.steps += want.steps;
    if let Some(m) = items_diff(&want.items, &got, pos) {
        return Err(m);
    }
    if let Some(m) = calls_diff(&want.calls, &log.borrow(), pos) {
        return Err(m);
    }
    t.state = Some(hash64(&(&want.items, &want.calls)));
    Ok(())
}

fn code(c: Class) -> char {
    match c {
        Class::Start => 's',
        Class::End => 'e',
        Class::Escape => 'x',
        Class::Space => 'w',
        Class::Other => 'o',
    }
}
fn uncode(c: char) -> Class {
    ROLES[["s", "e", "x", "w", "o"].iter().position(|x| x.starts_with(c)).expect("role")]
}

/// Classifiers with several, none, or unusual characters per role.  Each gives
/// some characters for every role that has any.
fn sets() -> Vec<(Box<dyn Fn(char) -> Class + Sync>, [Vec<char>; 5])> {
    let mut v: Vec<(Box<dyn Fn(char) -> Class + Sync>, [Vec<char>; 5])> = vec![];
    let mut table = |r: [&str; 5]| {
        let own: [Vec<char>; 5] = std::array::from_fn(|i| r[i].chars().collect());
        let look = own.clone();
        v.push((Box::new(move |c| (0..4).find(|&i| look[i].contains(&c)).map_or(Class::Other, |i| ROLES[i])), own));
    };
    table(["{", "}", "\\", " \n", "aλ"]);
    table(["}", "{", " ", "\\", "a𝄞"]);
    table(["(", ")", "!", "+", "{}\\ \n"]);
    table(["(<[", ")>]", "!~", "+_ ", "{}\\a"]);
    table(["⟦{", "}⟧", "\\¿", "\u{2003} ", "aλ𝄞"]);
    table(["\0", "\u{10ffff}", "\u{feff}", "\u{301}", "{a\u{e000}"]);
    table(["𝄞𝄟", "λμ", "▷◁", "\u{3000}\u{a0}", "a}"]);
    table(["ab", "cd", "ef", "gh", "ij"]);
    // Roles without any character.
    table(["{", "}", "", " ", "a\\"]);
    table(["{", "}", "\\", "", "a "]);
    table(["{", "", "\\", " ", "a}"]);
    table(["", "}", "\\", " ", "a{"]);
    table(["", "", "", "", "{}\\ a"]);
    table(["", "", "", "a ", "{}\\"]);
    table(["", "", "\\a", "", "{} "]);
    // Whole regions of Unicode.
    let by: [(fn(char) -> Class, [&str; 5]); 3] = [
        (
            |c| match c as u32 {
                0x28 => Class::Start,
                0x29 => Class::End,
                0x7e => Class::Escape,
                0x80.. => Class::Space,
                _ => Class::Other,
            },
            ["(", ")", "~", "λ𝄞\u{80}", "a {"],
        ),
        (
            |c| match c {
                'A'..='M' => Class::Start,
                'N'..='Z' => Class::End,
                '0'..='9' => Class::Escape,
                _ if c.is_control() => Class::Space,
                _ => Class::Other,
            },
            ["AM", "NZ", "09", "\t\u{7f}", "a {"],
        ),
        (
            |c| match (c as u32 % 5, c) {
                (_, 'a' | 'o' | 'p') => Class::Other,
                (k, _) => ROLES[k as usize],
            },
            ["d\u{1f4}", "e\u{1f5}", "f", "g\u{2713}", "ha"],
        ),
    ];
    for (f, r) in by {
        v.push((Box::new(f), std::array::from_fn(|i| r[i].chars().collect())));
    }
    for (f, r) in &v {
        for i in 0..5 {
            assert!(r[i].iter().all(|&c| f(c) == ROLES[i]), "{r:?}");
        }
    }
    v
}

fn main() {
    let ctx = Ctx::new("C16");
    let macs = vec![
        mac(mtext("o"), Kind::Operative, Effect::Wrap),
        mac(mtext("p"), Kind::Applicative, Effect::Operands),
        mac(mtext("{"), Kind::Operative, Effect::Operands),
    ];
    // The default classifier on every character, alone and in all contexts.
    let templates = [
        "@", "a@b", "{@}", "{a@}", "{a @}", "{a b@", "{@a}", "{o @}", "{o@{b} c}", "\\@", "{\\@}", "{a\\@b c}", "@}", "{@o b}", "{p@@b{@}}", "{{@}@@}", "a\\", "{@ o}",
    ];
    let per = 1u32 << 12;
    let scalars = |t: &mut Tally, c: char| -> Verdict {
        let want = default_class(c);
        let d = DefaultCharClassifier;
        let got = [d.is_nest_start(c), d.is_nest_end(c), d.is_nest_escape(c), d.is_whitespace(c)];
        for i in 0..4 {
            if got[i] != (want == ROLES[i]) {
                return Err(format!("character U+{:04X} must be {want:?}, but {:?} says {}", c as u32, ROLES[i], got[i]));
            }
        }
        t.traces += 1;
        let ways = if ctx.tier == kulmc::engine::Tier::Thorough { 4 } else { 1 };
        for (k, x) in templates.iter().enumerate() {
            let s = x.replace('@', c.encode_utf8(&mut [0; 4]));
            for way in 0..ways {
                check(t, &s, &default_class, DefaultCharClassifier, &macs, (way + k) % 4).map_err(|m| format!("{s:?}: {m}"))?;
            }
        }
        Ok(())
    };
    ctx.explore(
        "scalars",
        (0x110000 / per) as u64,
        16,
        ctx.threads,
        |w, i| {
            // The build without assertions only takes the first planes.
            let step = ctx.pick(7, 1, 1);
            for c in (i as u32 * per..(i as u32 + 1) * per).step_by(step).filter_map(char::from_u32) {
                w.case(|| format!("{:x}", c as u32), |t| scalars(t, c));
                if w.stopped() {
                    return;
                }
            }
        },
        |w, case| {
            let c = char::from_u32(u32::from_str_radix(case, 16).unwrap()).unwrap();
            w.case(|| case.into(), |t| scalars(t, c));
        },
    );
    // Every assignment of roles to a few characters, on every short word of them.
    let alphabets: [[char; 6]; 2] = [['{', '}', '\\', ' ', 'λ', 'a'], ['𝄞', '\0', '\u{3000}', '{', 'o', '\u{ffff}']];
    for (k, al) in alphabets.iter().enumerate() {
        let max = ctx.pick(3, 4 - k, 5 - k);
        let assigned = |t: &mut Tally, roles: &[Class; 6], s: &str, way: usize| {
            let f = |c: char| al.iter().position(|&x| x == c).map_or(Class::Other, |i| roles[i]);
            check(t, s, &f, By(f), &macs, way)
        };
        let show = |roles: &[Class; 6], s: &str, way: usize| {
            format!("{}/{}/{way}", roles.iter().map(|&r| code(r)).collect::<String>(), enc(s))
        };
        ctx.explore(
            &format!("assigned-{k}"),
            5u64.pow(6),
            16,
            ctx.threads,
            |w, i| {
                let mut j = i as usize;
                let roles: [Class; 6] = std::array::from_fn(|_| {
                    let r = ROLES[j % 5];
                    j /= 5;
                    r
                });
                let mut s = String::new();
                visit(6, &[], max, &mut |word| {
                    s.clear();
                    s.extend(word.iter().map(|&x| al[x]));
                    let way = (i as usize + word.iter().sum::<usize>()) % 4;
                    w.case(|| show(&roles, &s, way), |t| assigned(t, &roles, &s, way));
                    !w.stopped()
                });
            },
            |w, case| {
                let p: Vec<&str> = case.split('/').collect();
                let r: Vec<Class> = p[0].chars().map(uncode).collect();
                let roles: [Class; 6] = std::array::from_fn(|i| r[i]);
                let s = dec(p[1]);
                w.case(|| case.into(), |t| assigned(t, &roles, &s, p[2].parse().unwrap()));
            },
        );
    }
    // Each character in each role, with the other roles given to other characters.
    let notations = [['(', ')', '!', '+'], ['⟦', '⟧', '¡', '·']];
    let written = |n: &[char; 4], s: &str| -> String {
        s.chars()
            .map(|c| match c {
                '{' => n[0],
                '}' => n[1],
                '\\' => n[2],
                ' ' => n[3],
                c => c,
            })
            .collect()
    };
    let given = |n: [char; 4], own: Vec<(char, Class)>| {
        move |c: char| match own.iter().find(|x| x.0 == c) {
            Some(x) => x.1,
            None => n.iter().position(|&x| x == c).map_or(Class::Other, |i| ROLES[i]),
        }
    };
    let lone = |t: &mut Tally, c: char, r: usize, k: usize| -> Verdict {
        let f = given(notations[k], vec![(c, ROLES[r])]);
        for (i, x) in templates.iter().enumerate() {
            let s = written(&notations[k], x).replace('@', c.encode_utf8(&mut [0; 4]));
            check(t, &s, &f, By(&f), &macs, (i + r) % 4).map_err(|m| format!("{s:?}: {m}"))?;
        }
        Ok(())
    };
    ctx.explore(
        "roles",
        (0x110000 / per) as u64,
        16,
        ctx.threads,
        |w, i| {
            let step = ctx.pick(97, if i < 4 { 1 } else { 13 }, 1);
            for c in (i as u32 * per..(i as u32 + 1) * per).step_by(step).filter_map(char::from_u32) {
                for r in 0..5 {
                    for k in 0..if (c as u32) < 0x3000 { 2 } else { 1 } {
                        w.case(|| format!("{:x}/{r}/{k}", c as u32), |t| lone(t, c, r, k));
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        },
        |w, case| {
            let p: Vec<&str> = case.split('/').collect();
            let c = char::from_u32(u32::from_str_radix(p[0], 16).unwrap()).unwrap();
            w.case(|| case.into(), |t| lone(t, c, p[1].parse().unwrap(), p[2].parse().unwrap()));
        },
    );
    // Two characters in any roles, next to each other in many surroundings.
    let wide = kulmc::spaces::wide_by(ctx.pick(29, 1, 1));
    let some = kulmc::spaces::wide_by(ctx.pick(29, 11, 1));
    let surroundings: Vec<&str> = kulmc::spaces::SLOTS.iter().chain(kulmc::spaces::SLOTS_MACROS).copied().collect();
    let both = |t: &mut Tally, i: usize, c: char, d: char, r: usize| -> Verdict {
        let n = notations[(i + r) % 2];
        let f = given(n, vec![(c, ROLES[r / 5]), (d, ROLES[r % 5])]);
        let s = written(&n, surroundings[i]).replacen('□', &c.to_string(), 1).replacen('□', &d.to_string(), 1);
        check(t, &s, &f, By(&f), &macs, (i + r + c as usize) % 4).map_err(|m| format!("{s:?}: {m}"))
    };
    ctx.explore(
        "two_roles",
        (surroundings.len() * wide.len()) as u64,
        16,
        ctx.threads,
        |w, i| {
            let (i, c) = (i as usize / wide.len(), wide[i as usize % wide.len()]);
            for &d in if some.contains(&c) { &wide } else { &some } {
                for r in 0..25 {
                    w.case(|| format!("{i}/{:x}/{:x}/{r}", c as u32, d as u32), |t| both(t, i, c, d, r));
                }
                if w.stopped() {
                    return;
                }
            }
        },
        |w, case| {
            let p: Vec<&str> = case.split('/').collect();
            let ch = |s: &str| char::from_u32(u32::from_str_radix(s, 16).unwrap()).unwrap();
            w.case(|| case.into(), |t| both(t, p[0].parse().unwrap(), ch(p[1]), ch(p[2]), p[3].parse().unwrap()));
        },
    );
    // Longer words over the roles, written in many notations.
    let sets = sets();
    let max = ctx.pick(4, 7, 8);
    let sp = Split::new(5, max, 2000);
    let spell = |k: usize, word: &[usize], shift: usize| -> Option<String> {
        let mut s = String::new();
        for (i, &r) in word.iter().enumerate() {
            let c = &sets[k].1[r];
            if c.is_empty() {
                return None;
            }
            s.push(c[(i + shift) % c.len()]);
        }
        Some(s)
    };
    // Also names of macros may occur in the words.
    let named = vec![
        mac(mtext("a"), Kind::Operative, Effect::Wrap),
        mac(mtext("{"), Kind::Applicative, Effect::Operands),
        mac(mtext("i"), Kind::Applicative, Effect::Head),
    ];
    ctx.explore(
        "notations",
        sp.items(),
        16,
        ctx.threads,
        |w, i| {
            sp.visit(i, &mut |word| {
                for k in 0..sets.len() {
                    for shift in 0..ctx.pick(1, 2, 3) {
                        let Some(s) = spell(k, word, shift) else { continue };
                        let way = (word.len() + k + shift + word.iter().sum::<usize>()) % 4;
                        let m: &[Macro] = if shift == 1 { &named } else { &[] };
                        w.case(|| format!("{k}/{}/{way}/{}", enc(&s), shift), |t| check(t, &s, &*sets[k].0, By(&*sets[k].0), m, way));
                    }
                }
                !w.stopped()
            });
        },
        |w, case| {
            let p: Vec<&str> = case.split('/').collect();
            let k: usize = p[0].parse().unwrap();
            let s = dec(p[1]);
            let m: &[Macro] = if p[3] == "1" { &named } else { &[] };
            w.case(|| case.into(), |t| check(t, &s, &*sets[k].0, By(&*sets[k].0), m, p[2].parse().unwrap()));
        },
    );
    ctx.finish()
}
