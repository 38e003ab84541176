//! C12: dropping any tree, however deep or shared, uses bounded stack and time.

use kul::Datum;
use kulmc::counting::{calls, cpu, frees, stack_of, touch, Counting};
use kulmc::engine::{hash64, Ctx, Tally, Verdict, Worker};
use kulmc::graph::{steps, ArcR, BoxR, CountR, Graph, OwnR, PlainR, RcR, Refs};

#[global_allocator]
static ALLOC: Counting = Counting;

/// Notes the depth of the stack when destroyed.
struct Pay;
impl Drop for Pay {
    fn drop(&mut self) {
        touch();
    }
}

/// One unit of a repeated shape, in prefix notation: inner nodes `C` or `L`
/// followed by a mark (`.` none, `w` also referred to weakly from outside, `x` twice, `y`
/// thrice, `s` strongly, `t` twice), and instead of subtrees: `l` leaf, `N` the next unit (also several
/// times), `F` a fresh branch also held outside, `G` one branch held outside for
/// all units, `D` a fresh branch, `P`/`Q` a fresh left/right chain as long as
/// the whole.
struct Shape {
    g: Graph,
    top: usize,
    held: Vec<usize>,
    weak: Vec<usize>,
}

fn expand(unit: &str, k: usize) -> Shape {
    let mut s = Shape { g: Graph::default(), top: 0, held: vec![], weak: vec![] };
    let a = s.g.leaf();
    let b = s.g.leaf();
    let global = s.g.branch(false, a, b);
    if unit.contains('G') {
        s.held.push(global);
    }
    s.top = s.g.leaf();
    for _ in 0..k {
        let next = s.top;
        let mut it = unit.chars();
        s.top = subtree(&mut s, &mut it, next, global, k);
    }
    s
}

fn subtree(s: &mut Shape, it: &mut std::str::Chars<'_>, next: usize, global: usize, k: usize) -> usize {
    match it.next().unwrap() {
        c @ ('C' | 'L') => {
            let mark = it.next().unwrap();
            let l = subtree(s, it, next, global, k);
            let r = subtree(s, it, next, global, k);
            let n = s.g.branch(c == 'C', l, r);
            match mark {
                'w' => s.weak.push(n),
                'x' => s.weak.extend([n; 2]),
                'y' => s.weak.extend([n; 3]),
                't' => s.held.extend([n; 2]),
                'v' => s.weak.extend([n; 256]),
                'u' => s.held.extend([n; 255]),
                's' => s.held.push(n),
                _ => {}
            }
            n
        }
        'l' => s.g.leaf(),
        'N' => next,
        'G' => global,
        c @ ('F' | 'D') => {
            let a = s.g.leaf();
            let b = s.g.leaf();
            let n = s.g.branch(true, a, b);
            if c == 'F' {
                s.held.push(n);
            }
            n
        }
        c => {
            let mut n = s.g.leaf();
            for _ in 0..k {
                let x = s.g.leaf();
                n = if c == 'P' { s.g.branch(true, n, x) } else { s.g.branch(false, x, n) };
            }
            n
        }
    }
}

/// Drop orders: the top before or after the other handles, those in either direction.
const ORDERS: usize = 4;

/// All kinds of leaves; those without payload now and then.
fn leaf<R: Refs<P = Pay>>(i: usize) -> Datum<Pay, Pay, R::DR> {
    match i % 8 {
        3 => Datum::EmptyList,
        7 => Datum::EmptyNest,
        1 | 5 => Datum::Extra(Pay),
        _ => Datum::Text(Pay),
    }
}

struct Measured {
    stack: usize,
    work: u64,
    nodes: usize,
}

fn drops<R: Refs<P = Pay>>(s: &Shape, order: usize, count_work: bool) -> Result<Measured, String> {
    let mut roots = s.held.clone();
    if order % 2 == 1 {
        roots.reverse();
    }
    // The graph's unreferenced spare nodes are not built into anything.
    if order < 2 {
        roots.insert(0, s.top);
    } else {
        roots.push(s.top);
    }
    let mut counts = s.g.counts(&roots);
    let (handles, weak) = s.g.build::<R>(&roots, &s.weak, &mut leaf::<R>);
    let mut m = Measured { stack: 0, work: 0, nodes: 0 };
    let mut released = vec![];
    for (h, &r) in handles.into_iter().zip(&roots) {
        released.clear();
        s.g.release(&mut counts, r, &mut released);
        let f0 = frees() + calls();
        let s0 = steps();
        let ((), depth) = stack_of(|| drop(h));
        let work = frees() + calls() - f0 + steps() - s0;
        m.stack = m.stack.max(depth);
        m.work += work;
        m.nodes += released.len();
        if count_work && work > 100 * released.len() as u64 + 1000 {
            return Err(format!("{work} steps to release {} nodes", released.len()));
        }
    }
    drop(weak);
    Ok(m)
}

fn one<R: Refs<P = Pay>>(t: &mut Tally, unit: &str, order: usize, ks: &[usize]) -> Verdict {
    let mut last: Option<Measured> = None;
    for &k in ks {
        let s = expand(unit, k);
        let bad = |m: String| Err(format!("{}, {k} units, drop order {order}: {m}", R::NAME));
        let m = match drops::<R>(&s, order, true) {
            Ok(m) => m,
            Err(e) => return bad(e),
        };
        t.traces += 1;
        t.steps += m.nodes as u64;
        if let Some(l) = &last {
            if m.stack > l.stack + 1024 {
                return bad(format!("{} bytes of stack used for {} nodes but {} for {}", m.stack, m.nodes, l.stack, l.nodes));
            }
            let ratio = m.nodes as f64 / l.nodes as f64;
            if m.work as f64 > 2.0 * ratio * l.work as f64 + 1000.0 {
                return bad(format!("{} steps for {} nodes but {} for {}", m.work, m.nodes, l.work, l.nodes));
            }
            t.state = Some(hash64(&(unit, order, m.nodes)));
        }
        last = Some(m);
    }
    Ok(())
}

/// Processor time of dropping must grow like the number of nodes.
fn timed<R: Refs<P = Pay>>(t: &mut Tally, unit: &str, order: usize, small: usize, big: usize) -> Verdict {
    let mut msg = String::new();
    // Measurements can be disturbed; a real blow-up shows every time.
    for _ in 0..3 {
        t.alive();
        let run = |k: usize| -> Result<(f64, Measured), String> {
            let s = expand(unit, k);
            let mut roots = s.held.clone();
            if order % 2 == 1 {
                roots.reverse();
            }
            if order < 2 {
                roots.insert(0, s.top);
            } else {
                roots.push(s.top);
            }
            let (handles, weak) = s.g.build::<R>(&roots, &s.weak, &mut leaf::<R>);
            let t0 = cpu();
            let ((), stack) = stack_of(|| handles.into_iter().for_each(drop));
            let dt = cpu() - t0;
            drop(weak);
            Ok((dt, Measured { stack, work: 0, nodes: s.g.nodes.len() }))
        };
        let (a, m) = run(small)?;
        t.alive();
        let (b, n) = run(big)?;
        t.traces += 2;
        t.steps += (m.nodes + n.nodes) as u64;
        if n.stack > m.stack + 1024 {
            return Err(format!("{}: {} bytes of stack used for {} nodes but {} for {}", R::NAME, n.stack, n.nodes, m.stack, m.nodes));
        }
        let ratio = n.nodes as f64 / m.nodes as f64;
        if b < 0.3 || b < 4.0 * ratio * a {
            t.state = Some(hash64(&(unit, order, n.nodes)));
            return Ok(());
        }
        msg = format!("{}: {b:.3} s for {} nodes but {a:.3} s for {}", R::NAME, n.nodes, m.nodes);
    }
    Err(msg)
}

/// All units with exactly `inner` inner nodes over the given marks and symbols.
fn units(inner: usize, kinds: &[&str], symbols: &[&str]) -> Vec<String> {
    if inner == 0 {
        return symbols.iter().map(|s| s.to_string()).collect();
    }
    let mut v = vec![];
    for l in 0..inner {
        let right = units(inner - 1 - l, kinds, symbols);
        for a in units(l, kinds, symbols) {
            for b in &right {
                for k in kinds {
                    v.push(format!("{k}{a}{b}"));
                }
            }
        }
    }
    v
}

fn parse(c: &str) -> (&str, &str, usize) {
    let p: Vec<&str> = c.split('/').collect();
    (p[0], p[1], p[2].parse().unwrap())
}

macro_rules! by_name {
    ($name:expr, $f:ident($($a:expr),*)) => {
        match $name {
            "box" => $f::<BoxR<Pay>>($($a),*),
            "rc" => $f::<RcR<Pay>>($($a),*),
            "arc" => $f::<ArcR<Pay>>($($a),*),
            "user-plain" => $f::<PlainR<Pay>>($($a),*),
            "user-counts" => $f::<CountR<Pay>>($($a),*),
            "user-box" => $f::<OwnR<Pay>>($($a),*),
            _ => panic!("reference type"),
        }
    };
}

const SHARING: [&str; 4] = ["rc", "arc", "user-plain", "user-counts"];
const OWNING: [&str; 2] = ["box", "user-box"];

fn main() {
    let ctx = Ctx::new("C12");
    let space = |name: &str, units: Vec<String>, refs: &[&str], orders: usize, ks: &[usize]| {
        let units: Vec<String> = units.into_iter().filter(|u| u.contains('N')).collect();
        ctx.explore(
            name,
            units.len() as u64,
            64,
            ctx.threads,
            |w, i| {
                let u = &units[i as usize];
                // Other handles exist only where something is held.
                let orders = if u.contains(['F', 'G', 's', 't', 'u']) { orders } else { 1 };
                for r in refs {
                    for o in 0..orders {
                        w.case(|| format!("{r}/{u}/{o}"), |t| by_name!(*r, one(t, u, o, ks)));
                    }
                }
            },
            |w: &mut Worker<'_>, c: &str| {
                let (r, u, o) = parse(c);
                w.case(|| c.into(), |t| by_name!(r, one(t, u, o, ks)));
            },
        );
    };
    let marks = ["C.", "L.", "Cw", "Lw", "Cs", "Ls"];
    let plain = ["C.", "L."];
    let all = ["l", "N", "F", "G", "D", "P", "Q"];
    let short = ["l", "N", "F", "G", "D"];
    let own = ["l", "N", "D", "P", "Q"];
    let ks: &[usize] = &[12, 96];
    // Owning references: N at most once.
    let single = |v: Vec<String>| -> Vec<String> { v.into_iter().filter(|u| u.matches('N').count() == 1).collect() };
    let lite = |v: Vec<String>| -> Vec<String> { v.into_iter().filter(|u| u.matches(['P', 'Q']).count() <= 1).collect() };
    space("counted-1", units(1, &marks, &all), &SHARING, ORDERS, ks);
    space("handles-1", units(1, &["Lx", "Cx", "Ly", "Cy", "Lt", "Ct"], &all), &SHARING, ORDERS, ks);
    space("handles-2", units(2, ctx.pick(&["Lx"], &["L.", "C.", "Lx", "Cy", "Lt"], &["L.", "C.", "Lx", "Ly", "Cy", "Lt", "Cw"]), &["l", "N", "F", "G"]), &SHARING, 2, ks);
    space("crowds-1", units(1, &["Lv", "Cu"], &["l", "N", "F"]), &SHARING, 2, ctx.pick(&[4, 12], ks, ks));
    space("counted-2", units(2, &marks, ctx.pick(&["l", "N", "F"], &short, &short)), &SHARING, ctx.pick(2, ORDERS, ORDERS), ks);
    space("chains-2", lite(units(2, ctx.pick(&["L."], &["L.", "Cs"], &marks), &all)), &SHARING, ctx.pick(1, 2, ORDERS), &[8, 48]);
    space("counted-3", units(3, ctx.pick(&["L."], &["L.", "Ls"], &["L.", "Ls", "Lw"]), &["l", "N", "F"]), &SHARING, ctx.pick(1, 2, ORDERS), ks);
    space("owned-1", single(units(1, &plain, &own)), &OWNING, 1, ks);
    space("owned-2", single(units(2, &plain, &own)), &OWNING, 1, ks);
    space("owned-3", lite(single(units(3, &plain, ctx.pick(&["l", "N"], &own, &own)))), &OWNING, 1, ks);
    if ctx.tier == kulmc::engine::Tier::Thorough {
        space("counted-4", units(4, &["L."], &["l", "N", "F"]), &SHARING, 2, ks);
        space("owned-4", lite(single(units(4, &["L."], &own))), &OWNING, 1, ks);
    }
    // Longer repetitions of the smallest units: rare recursion shows as well.
    let long: &[usize] = ctx.pick(&[50, 1000], &[50, 3000], &[50, 20000]);
    space("long-1", units(1, &["L.", "Lw", "Cs"], &["l", "N", "F", "G", "D"]), &SHARING, ORDERS, long);
    space("long-2", units(2, &["L.", "Cs"], &["l", "N", "F"]), &SHARING, 2, long);
    space("long-own", single(units(2, &["L."], &["l", "N", "D"])), &OWNING, 1, long);
    // Processor time and stack on big trees.
    let (small, big) = ctx.pick((2000, 16000), (5000, 50000), (10000, 200000));
    let mut v = units(1, &["L.", "Cw", "Ls"], &["l", "N", "F", "G", "D"]);
    v.extend(units(2, &["L."], &["l", "N", "F"]));
    if ctx.tier == kulmc::engine::Tier::Thorough {
        v.extend(units(2, &["L.", "Cw", "Ls"], &["l", "N", "F", "D"]));
    }
    let v: Vec<String> = v.into_iter().filter(|u| u.contains('N')).collect();
    let names = ["rc", "arc", "box"];
    ctx.explore(
        "time",
        v.len() as u64,
        256,
        ctx.threads,
        |w, i| {
            let u = &v[i as usize];
            for r in names {
                if r == "box" && (u.contains(['F', 'G', 's', 'w']) || u.matches('N').count() > 1) {
                    continue;
                }
                for o in [0, 3] {
                    w.case(|| format!("{r}/{u}/{o}"), |t| by_name!(r, timed(t, u, o, small, big)));
                }
            }
        },
        |w, c| {
            let (r, u, o) = parse(c);
            w.case(|| c.into(), |t| by_name!(r, timed(t, u, o, small, big)));
        },
    );
    // Complete binary trees.
    let fan = |t: &mut Tally, r: &str| -> Verdict {
        fn go<R: Refs<P = Pay>>(t: &mut Tally) -> Verdict {
            let mut last: Option<(usize, u64, usize)> = None;
            for d in [6, 9, 12] {
                let mut g = Graph::default();
                let mut level: Vec<usize> = (0..1 << d).map(|_| g.leaf()).collect();
                while level.len() > 1 {
                    level = level.chunks(2).map(|p| (p[0], p[1])).collect::<Vec<_>>().into_iter().map(|(a, b)| g.branch(a % 3 == 0, a, b)).collect();
                }
                let (h, _) = g.build::<R>(&[level[0]], &[], &mut leaf::<R>);
                let w0 = frees() + calls() + steps();
                let ((), stack) = stack_of(|| drop(h));
                let work = frees() + calls() + steps() - w0;
                if let Some((s, w, n)) = last {
                    if stack > s + 1024 || work as f64 > 2.0 * w as f64 * g.nodes.len() as f64 / n as f64 {
                        return Err(format!("{}: full tree of {} nodes: {stack} bytes of stack, {work} steps; {n} nodes: {s}, {w}", R::NAME, g.nodes.len()));
                    }
                }
                last = Some((stack, work, g.nodes.len()));
                t.traces += 1;
                t.steps += g.nodes.len() as u64;
            }
            Ok(())
        }
        by_name!(r, go(t))
    };
    let names: Vec<&str> = SHARING.iter().chain(&OWNING).copied().collect();
    ctx.explore(
        "full",
        names.len() as u64,
        64,
        ctx.threads,
        |w, i| w.case(|| names[i as usize].into(), |t| fan(t, names[i as usize])),
        |w, c| w.case(|| c.into(), |t| fan(t, c)),
    );
    ctx.finish()
}
