//! C13: dropping releases exactly what became unreachable and nothing else.

use std::cell::{Cell, RefCell};

use kul::{Datum, DerefTryMut};
use kulmc::counting::{wides, Counting};
use kulmc::engine::{hash64, Ctx, Tally, Verdict, Worker};
use kulmc::graph::{ArcR, BoxR, CountR, Graph, Node, OwnR, PlainR, RcR, Refs};

thread_local! {
    static HOOK: Cell<Option<*const dyn Fn(usize)>> = const { Cell::new(None) };
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Tells when it is destroyed.  Its alignment tells nodes from other blocks.
#[repr(align(128))]
struct Pay(usize);
impl Drop for Pay {
    fn drop(&mut self) {
        if let Some(h) = HOOK.with(|h| h.get()) {
            unsafe { (*h)(self.0) }
        }
    }
}

/// What a payload's destructor does besides being noted.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Act {
    None,
    /// Drop that handle if it still exists.
    Drop(usize),
    /// Clone that handle and keep the clone, or not.
    Clone(usize, bool),
    /// Upgrade the weak handle of that node and keep the result, or not.
    Upgrade(usize, bool),
}

struct World<'g, R: Refs<P = Pay>> {
    g: &'g Graph,
    /// Handles with the node each refers to.
    strong: RefCell<Vec<Option<(usize, R::DR)>>>,
    weak: RefCell<Vec<(usize, R::Weak)>>,
    acts: Vec<Act>,
    destroyed: RefCell<Vec<u32>>,
    wrong: RefCell<Option<String>>,
    /// Blocks of nodes that existed before.
    base: i64,
    leaves: usize,
}

/// What stands at a leaf: texts everywhere, or every kind in turn.
fn leaf_kind(leaves: usize, node: usize) -> usize {
    if leaves == 0 {
        0
    } else {
        (node + leaves - 1) % 4
    }
}

impl<R: Refs<P = Pay>> World<'_, R> {
    fn fail(&self, m: String) {
        self.wrong.borrow_mut().get_or_insert(m);
    }

    /// Is what a handle shows exactly the graph below that node?
    fn intact(&self, d: &R::DR, node: usize) -> bool {
        match (&**d, self.g.nodes[node]) {
            (Datum::Text(p), Node::Leaf) if leaf_kind(self.leaves, node) == 0 => p.0 == node && self.destroyed.borrow()[node] == 0,
            (Datum::Extra(p), Node::Leaf) if leaf_kind(self.leaves, node) == 1 => p.0 == node && self.destroyed.borrow()[node] == 0,
            (Datum::EmptyList, Node::Leaf) => leaf_kind(self.leaves, node) == 2,
            (Datum::EmptyNest, Node::Leaf) => leaf_kind(self.leaves, node) == 3,
            (Datum::Combination { operator: l, operands: r }, Node::Branch { comb: true, left, right })
            | (Datum::List { elem: l, next: r }, Node::Branch { comb: false, left, right }) => {
                self.intact(l, left) && self.intact(r, right)
            }
            _ => false,
        }
    }

    fn destroy(&self, node: usize) {
        self.destroyed.borrow_mut()[node] += 1;
        match self.acts[node] {
            Act::None => {}
            Act::Drop(h) => {
                let x = self.strong.borrow_mut().get_mut(h).and_then(Option::take);
                drop(x);
            }
            Act::Clone(h, keep) => {
                let x = self.strong.borrow().get(h).and_then(|x| x.as_ref().map(|(n, d)| (*n, R::dup(d))));
                self.got(x, keep, "cloned in a destructor");
            }
            Act::Upgrade(w, keep) => {
                let x = {
                    let ws = self.weak.borrow();
                    ws.iter().find(|(n, _)| *n == w).and_then(|(n, w)| R::up(w).map(|d| (*n, d)))
                };
                self.got(x, keep, "upgraded in a destructor");
            }
        }
    }

    fn got(&self, x: Option<(usize, R::DR)>, keep: bool, what: &str) {
        if let Some((n, d)) = x {
            if !self.intact(&d, n) {
                self.fail(format!("node {n} {what} is not intact"));
            }
            if keep {
                self.strong.borrow_mut().push(Some((n, d)));
            }
        }
    }

    /// Everything a remaining handle reaches, and only that, must exist intact.
    fn judge(&self) -> Verdict {
        if let Some(m) = self.wrong.borrow_mut().take() {
            return Err(m);
        }
        let mut alive = vec![false; self.g.nodes.len()];
        let mut refs = vec![0; self.g.nodes.len()];
        let mut todo = vec![];
        for (n, d) in self.strong.borrow().iter().flatten() {
            if !self.intact(d, *n) {
                return Err(format!("node {n} seen through a remaining handle is not intact"));
            }
            todo.push(*n);
            refs[*n] += 1;
        }
        while let Some(n) = todo.pop() {
            if !std::mem::replace(&mut alive[n], true) {
                if let Node::Branch { left, right, .. } = self.g.nodes[n] {
                    todo.extend([left, right]);
                    refs[left] += 1;
                    refs[right] += 1;
                }
            }
        }
        for (n, x) in self.g.nodes.iter().enumerate() {
            let d = self.destroyed.borrow()[n];
            if *x == Node::Leaf && d != (!alive[n] && leaf_kind(self.leaves, n) < 2) as u32 {
                return Err(format!("payload {n} was destroyed {d} times; reachable: {}", alive[n]));
            }
        }
        // Released nodes may keep their block as long as a weak handle exists.
        let blocks = wides() - self.base;
        let least = alive.iter().filter(|a| **a).count() as i64;
        let most = least + self.weak.borrow().iter().filter(|(n, _)| !alive[*n]).count() as i64;
        if blocks < least || blocks > most {
            return Err(format!("{blocks} blocks are in use for nodes, it should be {least} to {most}"));
        }
        for (n, w) in self.weak.borrow().iter() {
            match R::up(w) {
                Some(_) if !alive[*n] => return Err(format!("released node {n} can still be reached weakly")),
                None if alive[*n] => return Err(format!("node {n} exists but cannot be reached weakly")),
                Some(d) if !self.intact(&d, *n) => return Err(format!("node {n} reached weakly is not intact")),
                _ => {}
            }
        }
        for (n, d) in self.strong.borrow_mut().iter_mut().flatten() {
            if refs[*n] > 1 && DerefTryMut::get_mut(d).is_some() {
                return Err(format!("shared node {n} can be modified"));
            }
        }
        Ok(())
    }
}

/// A graph, which nodes have a strong and a weak handle, and what payloads do.
struct Scene {
    g: Graph,
    strong: Vec<usize>,
    weak: Vec<usize>,
    acts: Vec<Act>,
    leaves: usize,
}

fn play<R: Refs<P = Pay>>(t: &mut Tally, s: &Scene, order: &[usize]) -> Verdict {
    let base = wides();
    let (h, w) = s.g.build::<R>(&s.strong, &s.weak, &mut |i| match leaf_kind(s.leaves, i) {
        0 => Datum::Text(Pay(i)),
        1 => Datum::Extra(Pay(i)),
        2 => Datum::EmptyList,
        _ => Datum::EmptyNest,
    });
    let world: World<'_, R> = World {
        g: &s.g,
        strong: RefCell::new(s.strong.iter().copied().zip(h).map(Some).collect()),
        weak: RefCell::new(s.weak.iter().copied().zip(w).collect()),
        acts: s.acts.clone(),
        destroyed: RefCell::new(vec![0; s.g.nodes.len()]),
        wrong: RefCell::new(None),
        base,
        leaves: s.leaves,
    };
    let hook = |n: usize| world.destroy(n);
    let hook: &dyn Fn(usize) = &hook;
    // Only used while `world` exists; taken away below also on a panic.
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            HOOK.with(|h| h.set(None));
        }
    }
    let _off = Off;
    HOOK.with(|h| h.set(Some(unsafe { std::mem::transmute::<*const dyn Fn(usize), *const dyn Fn(usize)>(hook as *const _) })));
    let mut r = world.judge().map_err(|m| format!("before any drop: {m}"));
    let mut seen = vec![];
    let mut i = 0;
    while r.is_ok() {
        let next = if i < order.len() {
            order[i]
        } else {
            // Handles made by destructors, last of all.
            match world.strong.borrow().iter().position(Option::is_some) {
                Some(p) => p,
                None => break,
            }
        };
        let x = world.strong.borrow_mut()[next].take();
        drop(x);
        t.steps += 1;
        r = world.judge().map_err(|m| format!("after drop {} of handle {next}: {m}", i + 1));
        seen.push(world.destroyed.borrow().iter().sum::<u32>());
        i += 1;
        if i > order.len() + 60 {
            r = Err("handles never end".into());
        }
    }
    world.weak.borrow_mut().clear();
    if r.is_ok() && wides() != base {
        r = Err(format!("{} blocks of nodes are left when there are no handles", wides() - base));
    }
    t.traces += 1;
    t.state = Some(hash64(&(&s.g, &s.strong, &s.acts, s.leaves, seen)));
    // On a failure do not let destructors act while unwinding the scene.
    if r.is_err() {
        HOOK.with(|h| h.set(None));
    }
    r.map_err(|m| format!("{}: {m}", R::NAME))
}

/// All orders of `n` things.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for o in orders(n - 1) {
        for p in 0..n {
            let mut x = o.clone();
            x.insert(p, n - 1);
            v.push(x);
        }
    }
    v.sort();
    v
}

/// All graphs with `n` nodes; kinds of branches alternate unless `kinds`.
fn graphs(n: usize, kinds: bool) -> Vec<Graph> {
    let mut v = vec![Graph::default()];
    for i in 0..n {
        let mut next = vec![];
        for g in v {
            let mut x = g.clone();
            x.leaf();
            next.push(x);
            for l in 0..i {
                for r in 0..i {
                    for c in if kinds { vec![true, false] } else { vec![i % 2 == 0] } {
                        let mut x = g.clone();
                        x.branch(c, l, r);
                        next.push(x);
                    }
                }
            }
        }
        v = next;
    }
    v
}

fn show(r: &str, s: &Scene, o: &[usize]) -> String {
    let g: Vec<String> = s
        .g
        .nodes
        .iter()
        .map(|n| match n {
            Node::Leaf => "-".into(),
            Node::Branch { comb, left, right } => format!("{}{left},{right}", if *comb { "C" } else { "L" }),
        })
        .collect();
    let a: Vec<String> = s
        .acts
        .iter()
        .map(|a| match a {
            Act::None => "-".into(),
            Act::Drop(h) => format!("d{h}"),
            Act::Clone(h, k) => format!("{}{h}", if *k { "K" } else { "k" }),
            Act::Upgrade(h, k) => format!("{}{h}", if *k { "U" } else { "u" }),
        })
        .collect();
    let nums = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    format!("{r}/{}/{}/{}/{}/{}/{}", g.join(" "), nums(&s.strong), nums(&s.weak), a.join(" "), nums(o), s.leaves)
}

fn read(c: &str) -> (String, Scene, Vec<usize>) {
    let p: Vec<&str> = c.split('/').collect();
    let nums = |s: &str| -> Vec<usize> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let mut g = Graph::default();
    for n in p[1].split(' ') {
        if n == "-" {
            g.leaf();
        } else {
            let v = nums(&n[1..]);
            g.branch(n.starts_with('C'), v[0], v[1]);
        }
    }
    let acts = p[4]
        .split(' ')
        .map(|a| {
            if a == "-" {
                return Act::None;
            }
            let n = a[1..].parse().unwrap();
            match &a[..1] {
                "d" => Act::Drop(n),
                "k" => Act::Clone(n, false),
                "K" => Act::Clone(n, true),
                "u" => Act::Upgrade(n, false),
                _ => Act::Upgrade(n, true),
            }
        })
        .collect();
    (p[0].into(), Scene { g, strong: nums(p[2]), weak: nums(p[3]), acts, leaves: p[6].parse().unwrap() }, nums(p[5]))
}

fn by_name(t: &mut Tally, r: &str, s: &Scene, o: &[usize]) -> Verdict {
    match r {
        "box" => play::<BoxR<Pay>>(t, s, o),
        "rc" => play::<RcR<Pay>>(t, s, o),
        "arc" => play::<ArcR<Pay>>(t, s, o),
        "user-plain" => play::<PlainR<Pay>>(t, s, o),
        "user-counts" => play::<CountR<Pay>>(t, s, o),
        "user-box" => play::<OwnR<Pay>>(t, s, o),
        _ => panic!("reference type"),
    }
}

const SHARING: [&str; 4] = ["rc", "arc", "user-plain", "user-counts"];
const OWNING: [&str; 2] = ["box", "user-box"];

/// All choices of handles that keep every node reachable.
fn handles(g: &Graph, max: usize, twice: bool) -> Vec<Vec<usize>> {
    let n = g.nodes.len();
    let inner = g.counts(&[]);
    let base = if twice { 3usize } else { 2 };
    let mut v = vec![];
    for code in 0..base.pow(n as u32) {
        let mut c = code;
        let mut s = vec![];
        for i in 0..n {
            for _ in 0..c % base {
                s.push(i);
            }
            c /= base;
        }
        if s.len() <= max && (0..n).all(|i| inner[i] > 0 || s.contains(&i)) {
            v.push(s);
        }
    }
    v
}

fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1u32 << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

fn main() {
    let ctx = Ctx::new("C13");
    let ords: Vec<Vec<Vec<usize>>> = (0..7).map(orders).collect();
    let run = |w: &mut Worker<'_>, refs: &[&str], s: &Scene| {
        for o in &ords[s.strong.len()] {
            for r in refs {
                w.case(|| show(r, s, o), |t| by_name(t, r, s, o));
            }
            if w.stopped() {
                return;
            }
        }
    };
    let replay = |w: &mut Worker<'_>, c: &str| {
        let (r, s, o) = read(c);
        w.case(|| c.into(), |t| by_name(t, &r, &s, &o));
    };
    // Plain payloads. (nodes, all kinds, handles at most, twice per node, all weak sets)
    let plain: &[(usize, bool, usize, bool, bool)] = ctx.pick(
        &[(3, true, 4, true, true), (4, false, 3, false, false)],
        &[(3, true, 5, true, true), (4, true, 4, false, true), (4, false, 5, true, false), (5, false, 3, false, false)],
        &[(3, true, 6, true, true), (4, true, 5, true, true), (5, false, 5, false, true), (6, false, 3, false, false)],
    );
    for (k, &(n, kinds, max, twice, allweak)) in plain.iter().enumerate() {
        let gs = graphs(n, kinds);
        let weaks: Vec<Vec<usize>> = if allweak {
            subsets(n)
        } else {
            let mut v = vec![vec![], (0..n).collect()];
            v.extend((0..n).map(|i| vec![i]));
            v
        };
        ctx.explore(
            &format!("graphs-{k}"),
            gs.len() as u64,
            8,
            ctx.threads,
            |w, i| {
                let g = &gs[i as usize];
                for strong in handles(g, max, twice) {
                    for weak in &weaks {
                        let s = Scene { g: g.clone(), strong: strong.clone(), weak: weak.clone(), acts: vec![Act::None; n], leaves: 0 };
                        run(w, &SHARING, &s);
                        if w.stopped() {
                            return;
                        }
                    }
                }
            },
            replay,
        );
    }
    // Destructors that act: one payload, and pairs of them.
    let acting: &[(usize, bool, usize, usize)] = ctx.pick(
        &[(3, false, 3, 1)],
        &[(3, false, 3, 2), (4, false, 4, 1), (5, false, 2, 1)],
        &[(3, true, 4, 2), (4, false, 4, 2), (5, false, 3, 1)],
    );
    for (k, &(n, kinds, max, actors)) in acting.iter().enumerate() {
        let gs = graphs(n, kinds);
        ctx.explore(
            &format!("acting-{k}"),
            gs.len() as u64,
            8,
            ctx.threads,
            |w, i| {
                let g = &gs[i as usize];
                let leaves: Vec<usize> = (0..n).filter(|&i| g.nodes[i] == Node::Leaf).collect();
                for strong in handles(g, max, false) {
                    let mut acts = vec![Act::None];
                    for h in 0..strong.len() {
                        acts.extend([Act::Drop(h), Act::Clone(h, true), Act::Clone(h, false)]);
                    }
                    for x in 0..n {
                        acts.extend([Act::Upgrade(x, true), Act::Upgrade(x, false)]);
                    }
                    let mut all: Vec<Vec<Act>> = vec![];
                    for &l in &leaves {
                        for &a in &acts[1..] {
                            let mut v = vec![Act::None; n];
                            v[l] = a;
                            all.push(v.clone());
                            if actors > 1 {
                                for &m in leaves.iter().filter(|&&m| m > l) {
                                    for &b in &acts[1..] {
                                        v[m] = b;
                                        all.push(v.clone());
                                        v[m] = Act::None;
                                    }
                                }
                            }
                        }
                    }
                    for acts in all {
                        // Weak handles: those used, and all.
                        let used: Vec<usize> =
                            (0..n).filter(|x| acts.iter().any(|a| matches!(a, Act::Upgrade(y, _) if y == x))).collect();
                        for weak in [used, (0..n).collect()] {
                            let s = Scene { g: g.clone(), strong: strong.clone(), weak, acts: acts.clone(), leaves: 0 };
                            run(w, &SHARING, &s);
                            if w.stopped() {
                                return;
                            }
                        }
                    }
                }
            },
            replay,
        );
    }
    // Owned trees: forests in which every node has exactly one owner.
    let own = ctx.pick(4, 6, 7);
    let mut forests = vec![];
    for n in 1..=own {
        forests.extend(graphs(n, n < 5).into_iter().filter(|g| g.counts(&[]).iter().all(|&c| c <= 1)));
    }
    ctx.explore(
        "owned",
        forests.len() as u64,
        8,
        ctx.threads,
        |w, i| {
            let g = &forests[i as usize];
            let n = g.nodes.len();
            let roots: Vec<usize> = g.counts(&[]).iter().enumerate().filter(|(_, &c)| c == 0).map(|(i, _)| i).collect();
            if roots.len() > 4 {
                return;
            }
            for l in (0..n).filter(|&i| g.nodes[i] == Node::Leaf) {
                for a in std::iter::once(Act::None).chain((0..roots.len()).map(Act::Drop)) {
                    let mut acts = vec![Act::None; n];
                    acts[l] = a;
                    let s = Scene { g: g.clone(), strong: roots.clone(), weak: vec![], acts, leaves: 0 };
                    run(w, &OWNING, &s);
                }
            }
        },
        replay,
    );
    // Every kind of leaf.
    let some: &[(usize, bool, usize)] = ctx.pick(&[(3, false, 3)], &[(3, true, 4), (4, false, 3)], &[(4, true, 4), (5, false, 3)]);
    for (k, &(n, kinds, max)) in some.iter().enumerate() {
        let gs = graphs(n, kinds);
        ctx.explore(
            &format!("leaves-{k}"),
            gs.len() as u64,
            8,
            ctx.threads,
            |w, i| {
                let g = &gs[i as usize];
                for strong in handles(g, max, false) {
                    for leaves in 1..=4 {
                        for weak in [vec![], (0..n).collect()] {
                            let s = Scene { g: g.clone(), strong: strong.clone(), weak, acts: vec![Act::None; n], leaves };
                            run(w, &SHARING, &s);
                            if strong.len() == 1 && g.counts(&strong).iter().all(|&c| c <= 1) && s.weak.is_empty() {
                                run(w, &OWNING, &s);
                            }
                            if w.stopped() {
                                return;
                            }
                        }
                    }
                }
            },
            replay,
        );
    }
    // Many handles of one node.
    let crowd = |t: &mut Tally, r: &str, n: usize, form: usize| {
        let mut g = Graph::default();
        let a = g.leaf();
        let b = g.leaf();
        let c = g.branch(true, a, b);
        let d = g.branch(false, c, a);
        let e = g.branch(false, b, d);
        let weak = if form % 2 == 0 { vec![c; n] } else { [vec![e; n], vec![d; 3]].concat() };
        let mut strong = vec![e];
        if form / 2 % 2 == 1 {
            // Every step looks at every handle, so these are fewer.
            if n > 300 || n > 40 && (n - 1).count_ones() > 1 && n.count_ones() > 1 {
                return Ok(());
            }
            strong.extend(vec![c; n]);
        }
        let mut order: Vec<usize> = (0..strong.len()).collect();
        if form / 4 == 1 {
            order.reverse();
        }
        let all = g.nodes.len();
        by_name(t, r, &Scene { g, strong, weak, acts: vec![Act::None; all], leaves: 0 }, &order)
    };
    let sizes = kulmc::spaces::lengths(&ctx, 1 << 16);
    ctx.explore(
        "crowds",
        (sizes.len() * 8) as u64,
        64,
        ctx.threads,
        |w, i| {
            let (n, form) = (sizes[i as usize / 8], i as usize % 8);
            for r in SHARING {
                w.case(|| format!("{r}/{n}/{form}"), |t| crowd(t, r, n, form));
            }
        },
        |w, c| {
            let p: Vec<&str> = c.split('/').collect();
            w.case(|| c.into(), |t| crowd(t, p[0], p[1].parse().unwrap(), p[2].parse().unwrap()));
        },
    );
    // Chains of every length, with handles here and there.
    let chain = |n: usize, shape: usize| {
        let mut g = Graph::default();
        let mut last = g.leaf();
        let mut spine = vec![last];
        for i in 0..n {
            let (comb, left) = [(false, false), (true, false), (true, true), (false, true), (i % 2 == 0, i % 2 == 0), (i % 3 == 0, i % 3 == 1)][shape];
            let side = g.leaf();
            last = if left { g.branch(comb, last, side) } else { g.branch(comb, side, last) };
            spine.push(last);
        }
        (g, spine)
    };
    let most = ctx.pick(20, 72, 200);
    ctx.explore(
        "chains",
        (most + 1) as u64 * 6,
        8,
        ctx.threads,
        |w, i| {
            let (n, shape) = (i as usize / 6, i as usize % 6);
            let (g, spine) = chain(n, shape);
            let all = g.nodes.len();
            let mut at: Vec<Vec<usize>> = vec![vec![]];
            let step = 1 + n / 24;
            for a in (0..n).step_by(step).chain(n.checked_sub(1)) {
                at.push(vec![spine[a]]);
                for b in [a + 1, a + 2, a + n / 2] {
                    if b < n {
                        at.push(vec![spine[a], spine[b]]);
                    }
                }
            }
            for extra in at {
                let mut strong = vec![spine[n]];
                strong.extend(extra);
                for (weak, leaves) in [(vec![], 0), ((0..all).step_by(3).collect(), 1 + n % 4)] {
                    let s = Scene { g: g.clone(), strong: strong.clone(), weak, acts: vec![Act::None; all], leaves };
                    run(w, &SHARING, &s);
                    if strong.len() == 1 && s.weak.is_empty() {
                        run(w, &OWNING, &s);
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        },
        replay,
    );
    ctx.finish()
}
