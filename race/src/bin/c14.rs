//! C14: threads may drop and use shared atomically counted trees concurrently.

#[cfg(not(feature = "shim"))]
use kul as kul_scheduled;
use kul_scheduled::drop::{algo1, Algo1DatumRef, RcLike, RcLikeAtomicCounts};
use kul_scheduled::{Datum, DerefTryMut};
use kulmc::engine::{hash64, Ctx, Tally, Verdict};
use kulrace::{explore, install, Body};
use kulstd::sync::{Arc, Weak};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ops::Deref;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Payload of an unusual size, so that nodes are recognized by theirs.
struct P {
    id: u8,
    #[allow(dead_code)]
    pad: [u8; 307],
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        self.id == o.id
    }
}
impl Drop for P {
    fn drop(&mut self) {
        DROPS.with(|d| d[self.id as usize].set(d[self.id as usize].get() + 1));
    }
}
const SIZES: [usize; 3] = [
    std::mem::size_of::<Datum<P, P, Unwraps>>() + 16,
    std::mem::size_of::<Datum<P, P, Unwraps>>() + 24,
    std::mem::size_of::<Datum<P, P, Unwraps>>() + 32,
];

const MOST: usize = 12;
thread_local! {
    static DROPS: [Cell<u32>; MOST] = const { [const { Cell::new(0) }; MOST] };
    static NODES: Cell<i64> = const { Cell::new(0) };
}

struct Alloc;
fn note(l: Layout, n: i64) {
    if SIZES.contains(&l.size()) {
        let _ = NODES.try_with(|c| c.set(c.get() + n));
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(l, -1);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Alloc = Alloc;

/// A reference type and its weak companion.
trait Refs: 'static {
    const NAME: &'static str;
    type DR: DerefTryMut<Target = Datum<P, P, Self::DR>> + 'static;
    type Weak: 'static;
    fn mk(d: Datum<P, P, Self::DR>) -> Self::DR;
    fn dup(d: &Self::DR) -> Self::DR;
    fn weak(d: &Self::DR) -> Self::Weak;
    fn up(w: &Self::Weak) -> Option<Self::DR>;
}

/// The crate's own type.
#[cfg(feature = "shim")]
struct Own;
#[cfg(feature = "shim")]
impl Refs for Own {
    const NAME: &'static str = "own";
    type DR = kul_scheduled::datum::DatumArc<P, P>;
    type Weak = Weak<Datum<P, P, Self::DR>>;
    fn mk(d: Datum<P, P, Self::DR>) -> Self::DR {
        kul_scheduled::datum::DatumArc::new(d)
    }
    fn dup(d: &Self::DR) -> Self::DR {
        kul_scheduled::datum::DatumArc(d.0.clone())
    }
    fn weak(d: &Self::DR) -> Self::Weak {
        Arc::downgrade(&d.0)
    }
    fn up(w: &Self::Weak) -> Option<Self::DR> {
        w.upgrade().map(kul_scheduled::datum::DatumArc)
    }
}

/// Types as users of the drop facility may define them.
macro_rules! users {
    ($dr:ident, $refs:ident, $name:expr, $replace:expr) => {
        struct $dr(Arc<Datum<P, P, $dr>>);
        impl Deref for $dr {
            type Target = Datum<P, P, $dr>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl DerefTryMut for $dr {
            fn get_mut(this: &mut Self) -> Option<&mut Self::Target> {
                Arc::get_mut(&mut this.0)
            }
        }
        impl RcLike for $dr {
            type RC = Arc<Datum<P, P, $dr>>;
            fn get_rc(this: &mut Self) -> &mut Self::RC {
                &mut this.0
            }
            fn new_rc(val: Datum<P, P, $dr>) -> Self::RC {
                Arc::new(val)
            }
            fn try_unwrap(rc: Self::RC) -> Result<Datum<P, P, $dr>, Self::RC> {
                Arc::try_unwrap(rc)
            }
        }
        impl Algo1DatumRef for $dr {
            fn try_replace(this: &mut Self, val: Self::Target) -> Result<Self::Target, Self::Target> {
                $replace(this, val)
            }
            fn set(this: &mut Self, val: Self::Target) {
                RcLike::set(this, val)
            }
        }
        impl Drop for $dr {
            fn drop(&mut self) {
                algo1(self)
            }
        }
        struct $refs;
        impl Refs for $refs {
            const NAME: &'static str = $name;
            type DR = $dr;
            type Weak = Weak<Datum<P, P, $dr>>;
            fn mk(d: Datum<P, P, $dr>) -> $dr {
                $dr(Arc::new(d))
            }
            fn dup(d: &$dr) -> $dr {
                $dr(d.0.clone())
            }
            fn weak(d: &$dr) -> Self::Weak {
                Arc::downgrade(&d.0)
            }
            fn up(w: &Self::Weak) -> Option<$dr> {
                w.upgrade().map($dr)
            }
        }
    };
}
users!(Unwraps, UserUnwraps, "unwraps", <Unwraps as RcLike>::try_replace);
users!(Counts, UserCounts, "counts", <Counts as RcLikeAtomicCounts>::try_replace_optim);
impl RcLikeAtomicCounts for Counts {
    fn counts(this: &Self) -> (usize, usize) {
        Arc::both_counts(&this.0)
    }
}

/// Children of each node; leaves have none.
type Graph = Vec<Option<(usize, usize)>>;

fn same<R: Refs>(g: &Graph, i: usize, d: &Datum<P, P, R::DR>) -> bool {
    match (g[i], d) {
        (None, Datum::Extra(p)) => i % 2 == 0 && p.id as usize == i,
        (None, Datum::Text(p)) => i % 2 == 1 && p.id as usize == i,
        (Some((a, b)), Datum::List { elem, next }) => i % 2 == 0 && same::<R>(g, a, &**elem) && same::<R>(g, b, &**next),
        (Some((a, b)), Datum::Combination { operator, operands }) => i % 2 == 1 && same::<R>(g, a, &**operator) && same::<R>(g, b, &**operands),
        _ => false,
    }
}

fn build<R: Refs>(g: &Graph) -> Vec<R::DR> {
    let mut v: Vec<R::DR> = vec![];
    for (i, n) in g.iter().enumerate() {
        let p = || P { id: i as u8, pad: [7; 307] };
        let d = match n {
            None if i % 2 == 0 => Datum::Extra(p()),
            None => Datum::Text(p()),
            Some((a, b)) if i % 2 == 0 => Datum::List { elem: R::dup(&v[*a]), next: R::dup(&v[*b]) },
            Some((a, b)) => Datum::Combination { operator: R::dup(&v[*a]), operands: R::dup(&v[*b]) },
        };
        v.push(R::mk(d));
    }
    v
}

/// What a thread starts with and does: handles (node, weak?) and operations.
#[derive(Clone, Debug, Hash)]
struct Prog {
    has: Vec<(usize, bool)>,
    does: &'static str,
}

enum H<R: Refs> {
    Strong(R::DR),
    Weak(R::Weak),
    Gone,
}

/// The operations work on the first handle, some also on the second.
fn perform<R: Refs>(g: &Graph, prog: &Prog, mut hs: Vec<H<R>>) -> Result<(), String> {
    let mut at: Vec<usize> = prog.has.iter().map(|x| x.0).collect();
    let look = |d: &R::DR, i: usize, when: &str| -> Result<(), String> {
        if same::<R>(g, i, &**d) {
            Ok(())
        } else {
            Err(format!("the tree under node {i} is not what it was ({when})"))
        }
    };
    for op in prog.does.chars() {
        let h = std::mem::replace(&mut hs[0], H::Gone);
        hs[0] = match (op, h) {
            // Read.
            ('r', H::Strong(d)) => {
                look(&d, at[0], "read")?;
                H::Strong(d)
            }
            // Clone, read and drop the clone.
            ('k', H::Strong(d)) => {
                let c = R::dup(&d);
                look(&c, at[0], "clone")?;
                drop(c);
                look(&d, at[0], "after dropping the clone")?;
                H::Strong(d)
            }
            // Exclusive access, if that is possible.
            ('m', H::Strong(mut d)) => {
                if let Some(x) = DerefTryMut::get_mut(&mut d) {
                    if !same::<R>(g, at[0], x) {
                        return Err(format!("the tree under node {} is not what it was (exclusive)", at[0]));
                    }
                }
                H::Strong(d)
            }
            // Go on with a child only.
            (x @ ('l' | 'n'), H::Strong(d)) => {
                let c = match &*d {
                    Datum::List { elem: a, next: b } | Datum::Combination { operator: a, operands: b } => {
                        let (ia, ib) = g[at[0]].ok_or("a leaf became a branch")?;
                        at[0] = if x == 'l' { ia } else { ib };
                        R::dup(if x == 'l' { a } else { b })
                    }
                    _ => R::dup(&d),
                };
                drop(d);
                look(&c, at[0], "child")?;
                H::Strong(c)
            }
            // Go on with a weak handle only.
            ('w', H::Strong(d)) => H::Weak(R::weak(&d)),
            // Go on with a strong one, if there is something left.
            ('u', H::Weak(w)) => match R::up(&w) {
                Some(d) => {
                    look(&d, at[0], "upgraded")?;
                    drop(w);
                    look(&d, at[0], "after dropping the weak handle")?;
                    H::Strong(d)
                }
                None => H::Gone,
            },
            // The same, keeping the weak one.
            ('v', H::Weak(w)) => {
                if let Some(d) = R::up(&w) {
                    look(&d, at[0], "upgraded")?;
                    drop(d);
                }
                H::Weak(w)
            }
            // Drop the first, go on with the second.
            ('d', h) => {
                drop(h);
                hs.rotate_left(1);
                at.rotate_left(1);
                std::mem::replace(&mut hs[0], H::Gone)
            }
            // Compare the first two.
            ('e', H::Strong(d)) => {
                if let H::Strong(o) = &hs[1] {
                    let eq = *d == **o;
                    // Distinct nodes have distinct payloads below them.
                    if eq != (at[0] == at[1] || alike(g, at[0], at[1])) {
                        return Err(format!("nodes {} and {} compare {eq}", at[0], at[1]));
                    }
                }
                H::Strong(d)
            }
            (_, h) => h,
        };
    }
    for h in hs {
        match h {
            H::Strong(d) => drop(d),
            H::Weak(w) => drop(w),
            H::Gone => {}
        }
    }
    Ok(())
}

/// Equal as forms.
fn alike(g: &Graph, a: usize, b: usize) -> bool {
    match (g[a], g[b]) {
        (None, None) => a == b,
        (Some(x), Some(y)) => a % 2 == b % 2 && alike(g, x.0, y.0) && alike(g, x.1, y.1),
        _ => false,
    }
}

/// Steps done, and what to keep to.
static SPENT: AtomicU64 = AtomicU64::new(0);
static SPEND: AtomicU64 = AtomicU64::new(0);

fn scene<R: Refs>(t: &mut Tally, bound: Option<u32>, g: &Graph, progs: &[Prog]) -> Verdict {
    let g = Rc::new(g.clone());
    let before: Rc<Cell<i64>> = Rc::new(Cell::new(0));
    let leaves: Vec<usize> = (0..g.len()).filter(|i| g[*i].is_none()).collect();
    let b2 = before.clone();
    let g2 = g.clone();
    let progs2 = progs.to_vec();
    let mut make = move || -> Vec<Body> {
        DROPS.with(|d| d.iter().for_each(|c| c.set(0)));
        b2.set(NODES.with(|c| c.get()));
        let nodes = build::<R>(&g2);
        let bodies: Vec<Body> = progs2
            .iter()
            .map(|p| {
                let hs: Vec<H<R>> = p.has.iter().map(|(i, weak)| if *weak { H::Weak(R::weak(&nodes[*i])) } else { H::Strong(R::dup(&nodes[*i])) }).collect();
                let (p, g) = (p.clone(), g2.clone());
                let f: Body = Box::new(move || perform::<R>(&g, &p, hs));
                f
            })
            .collect();
        drop(nodes);
        bodies
    };
    let mut after = move || -> Result<(), String> {
        for i in &leaves {
            let n = DROPS.with(|d| d[*i].get());
            if n != 1 {
                return Err(format!("the payload of node {i} was destroyed {n} times"));
            }
        }
        let n = NODES.with(|c| c.get()) - before.get();
        if n != 0 {
            return Err(format!("{n} nodes are left"));
        }
        Ok(())
    };
    // What takes too many steps (more operations than the code now does would
    // make for many more interleavings) is explored with fewer interruptions.
    let mut bound = bound;
    let r = loop {
        let spent = SPENT.load(Relaxed);
        let most = match bound {
            None if spent > SPEND.load(Relaxed) => 0,
            None => SPEND.load(Relaxed) / 100,
            Some(b) if b > 1 && spent > SPEND.load(Relaxed) * 2 => 0,
            Some(b) if b > 0 => SPEND.load(Relaxed) / 1000,
            Some(_) => u64::MAX,
        };
        let (stats, r) = explore(bound, most, &mut make, &mut after, &|| t.alive());
        t.traces += stats.schedules + stats.cut;
        t.steps += stats.steps;
        SPENT.fetch_add(stats.steps, Relaxed);
        t.add("interleavings", stats.schedules);
        t.add("cut short as equivalent to others", stats.cut);
        match r {
            Ok(true) => break Ok(()),
            Ok(false) => {
                t.add("scenes explored with fewer interruptions", 1);
                bound = Some(bound.map_or(3, |b| b - 1));
            }
            Err(m) => break Err(m),
        }
    };
    t.state = Some(hash64(&(R::NAME, bound, &*g, progs)));
    r
}

/// All graphs of `n` nodes, each but the last reachable from the last.
fn graphs(n: usize) -> Vec<Graph> {
    let mut out = vec![];
    fn go(n: usize, g: &mut Graph, out: &mut Vec<Graph>) {
        let i = g.len();
        if i == n {
            let mut seen = vec![false; n];
            seen[n - 1] = true;
            for j in (0..n).rev() {
                if seen[j] {
                    if let Some((a, b)) = g[j] {
                        seen[a] = true;
                        seen[b] = true;
                    }
                }
            }
            if seen.iter().all(|x| *x) {
                out.push(g.clone());
            }
            return;
        }
        g.push(None);
        go(n, g, out);
        g.pop();
        for a in 0..i {
            for b in 0..i {
                g.push(Some((a, b)));
                go(n, g, out);
                g.pop();
            }
        }
    }
    go(n, &mut vec![], &mut out);
    out
}

/// Lists and towers whose nodes may be shared.
fn long_graphs(k: usize) -> Vec<Graph> {
    let mut out = vec![];
    for kind in 0..6 {
        // 0: list, 1: tower of heads, 2: zigzag, 3: shared elements, 4: both sides the same, 5: list of nests
        let mut g: Graph = vec![None];
        let mut tip = 0;
        for j in 0..k {
            match kind {
                3 => g.push(Some((0, tip))),
                4 => g.push(Some((tip, tip))),
                5 => {
                    g.push(Some((0, 0)));
                    g.push(Some((g.len() - 1, tip)));
                }
                _ => {
                    g.push(None);
                    let e = g.len() - 1;
                    g.push(Some(if kind == 1 || kind == 2 && j % 2 == 1 { (tip, e) } else { (e, tip) }));
                }
            }
            tip = g.len() - 1;
        }
        if g.len() <= MOST {
            out.push(g);
        }
    }
    out
}

fn describe(name: &str, g: &Graph, progs: &[Prog]) -> String {
    let ns: Vec<String> = g.iter().map(|n| n.map_or("-".into(), |(a, b)| format!("{a}.{b}"))).collect();
    let ps: Vec<String> = progs
        .iter()
        .map(|p| {
            let hs: Vec<String> = p.has.iter().map(|(i, w)| format!("{}{i}", if *w { "w" } else { "s" })).collect();
            format!("{}:{}", hs.join("+"), p.does)
        })
        .collect();
    format!("{name}/{}/{}", ns.join(","), ps.join(","))
}

fn parse_case(case: &str) -> (String, Graph, Vec<Prog>) {
    let q: Vec<&str> = case.split('/').collect();
    let num = |s: &str| s.parse::<usize>().unwrap();
    let g = q[1].split(',').map(|n| n.split_once('.').map(|(a, b)| (num(a), num(b)))).collect();
    let ps = q[2]
        .split(',')
        .map(|p| {
            let (h, d) = p.split_once(':').unwrap();
            Prog { has: h.split('+').map(|x| (num(&x[1..]), x.starts_with('w'))).collect(), does: Box::leak(d.to_string().into_boxed_str()) }
        })
        .collect();
    (q[0].into(), g, ps)
}

fn by_name(t: &mut Tally, bound: Option<u32>, name: &str, g: &Graph, progs: &[Prog]) -> Verdict {
    match name {
        #[cfg(feature = "shim")]
        "own" => scene::<Own>(t, bound, g, progs),
        "unwraps" => scene::<UserUnwraps>(t, bound, g, progs),
        _ => scene::<UserCounts>(t, bound, g, progs),
    }
}

fn main() {
    let ctx = Ctx::new("C14");
    install();
    SPEND.store(ctx.pick(1_000_000_000, 1_200_000_000, 60_000_000_000), Relaxed);
    let names: &[&str] = if cfg!(feature = "shim") { &["own", "unwraps", "counts"] } else { &["unwraps", "counts"] };

    let strong: &[&'static str] = &["", "r", "k", "m", "l", "n", "w", "wu", "lm", "nk"];
    let weak: &[&'static str] = &["", "u", "v", "um", "uk", "ul", "vu", "uwu"];
    let few_s: &[&'static str] = &["", "k", "m", "l", "wu"];
    let few_w: &[&'static str] = &["u", "um", "ul"];

    let family = |name: &str, bound: Option<u32>, gs: &[Graph], f: &(dyn Fn(&Graph) -> Vec<Vec<Prog>> + Sync)| {
        let scenes: Vec<(&str, &Graph, Vec<Prog>)> = gs.iter().flat_map(|g| f(g).into_iter().flat_map(move |p| names.iter().map(move |n| (*n, g, p.clone())))).collect();
        ctx.explore(
            name,
            scenes.len() as u64,
            16,
            ctx.threads,
            |w, i| {
                let (n, g, progs) = &scenes[i as usize];
                w.case(|| describe(n, g, progs), |t| by_name(t, bound, n, g, progs));
            },
            |w, case| {
                let (n, g, progs) = parse_case(case);
                w.case(|| case.into(), |t| by_name(t, bound, &n, &g, &progs));
            },
        )
    };
    let all = |max: usize| -> Vec<Graph> { (1..=max).flat_map(graphs).collect() };
    // One holds the top, the other any node.
    let two = |g: &Graph, ss: &[&'static str], ws: &[&'static str]| {
        let mut v = vec![];
        let top = g.len() - 1;
        for a in ss {
            let pa = Prog { has: vec![(top, false)], does: a };
            for b in 0..g.len() {
                for d in ss {
                    v.push(vec![pa.clone(), Prog { has: vec![(b, false)], does: d }]);
                }
                for d in ws {
                    v.push(vec![pa.clone(), Prog { has: vec![(b, true)], does: d }]);
                }
            }
        }
        v
    };
    family("two", None, &all(ctx.pick(2, 3, 4)), &|g| two(g, strong, weak));
    family("two, larger", None, &graphs(ctx.pick(3, 4, 5)), &|g| two(g, &["", "l"], &["u", "um"]));
    family("two, bounded", Some(ctx.pick(2, 2, 3)), &graphs(ctx.pick(3, 4, 5)), &|g| two(g, strong, weak));
    family("two, bounded, largest", Some(ctx.pick(1, 2, 2)), &graphs(ctx.pick(4, 5, 6)), &|g| two(g, &["", "l"], &["um"]));
    // Three threads.
    let three = |g: &Graph, ss: &[&'static str], ws: &[&'static str]| {
        let mut v = vec![];
        let top = g.len() - 1;
        let mut others = vec![];
        for b in 0..g.len() {
            others.extend(ss.iter().map(|d| Prog { has: vec![(b, false)], does: d }));
            others.extend(ws.iter().map(|d| Prog { has: vec![(b, true)], does: d }));
        }
        for a in ss {
            for (i, b) in others.iter().enumerate() {
                for c in &others[i..] {
                    v.push(vec![Prog { has: vec![(top, false)], does: a }, b.clone(), c.clone()]);
                }
            }
        }
        v
    };
    family("three", None, &all(ctx.pick(1, 2, 2)), &|g| three(g, &["", "k", "l"], &["u", "um"]));
    family("three, larger", None, &graphs(ctx.pick(2, 3, 3)), &|g| three(g, &[""], &["u"]));
    family("three, bounded", Some(ctx.pick(1, 2, 3)), &all(ctx.pick(2, 3, 4)), &|g| three(g, few_s, few_w));
    family("three, bounded, larger", Some(ctx.pick(1, 1, 2)), &graphs(ctx.pick(3, 4, 5)), &|g| three(g, &["", "l"], &["u"]));
    // Two handles each, dropped in either order, compared.
    let pairs = |g: &Graph| {
        let mut v = vec![];
        let top = g.len() - 1;
        for b in 0..g.len() {
            for c in 0..g.len() {
                for (x, y) in [("", ""), ("d", ""), ("", "e"), ("e", "ed"), ("dm", "dm"), ("k", "m"), ("dl", "n")] {
                    v.push(vec![Prog { has: vec![(top, false), (b, false)], does: x }, Prog { has: vec![(top, false), (c, false)], does: y }]);
                    v.push(vec![Prog { has: vec![(top, false), (b, true)], does: if x == "d" { "du" } else { "dum" } }, Prog { has: vec![(c, false), (c, true)], does: y }]);
                }
            }
        }
        v
    };
    family("two handles", None, &all(ctx.pick(2, 3, 3)), &pairs);
    family("two handles, bounded", Some(ctx.pick(1, 2, 3)), &graphs(ctx.pick(3, 4, 4)), &pairs);
    // Longer chains.
    let chains = |k: usize| -> Vec<Graph> { (2..=k).flat_map(long_graphs).collect() };
    family("chains", None, &chains(ctx.pick(2, 3, 3)), &|g| two(g, &["", "l"], &["u", "um"]));
    family("chains, bounded", Some(ctx.pick(1, 2, 3)), &chains(ctx.pick(3, 5, 5)), &|g| two(g, few_s, few_w));
    family("chains, three, bounded", Some(ctx.pick(1, 2, 2)), &chains(ctx.pick(2, 2, 4)), &|g| three(g, &["", "l"], &["u"]));
    ctx.finish()
}
