//! Explores all interleavings, at the granularity of operations on reference
//! counts, of small sets of threads.  Threads are coroutines on one system
//! thread, so nothing but the explorer decides who runs.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
pub use kulstd::sched::Kind;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An operation about to be done: on which allocation, and what.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub addr: usize,
    pub kind: Kind,
}

/// Does the order of these matter?
fn dependent(a: Op, b: Op) -> bool {
    use Kind::*;
    if a.addr != b.addr {
        return false;
    }
    !matches!(
        (a.kind, b.kind),
        (Clone, Clone) | (Count, Count) | (Downgrade, Downgrade) | (Upgrade, Upgrade) | (WeakClone, WeakClone) | (WeakDrop, WeakDrop)
    )
}

thread_local! {
    static CURRENT: Cell<*const Yielder<(), Op>> = const { Cell::new(std::ptr::null()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(vec![]) };
}

/// Called by the instrumented `Arc`.
fn hook(addr: usize, kind: Kind) {
    let y = CURRENT.with(|c| c.get());
    if y.is_null() || std::thread::panicking() {
        return;
    }
    unsafe { (*y).suspend(Op { addr, kind }) };
}

pub fn install() {
    kulstd::sched::set_hook(hook);
}

/// A thread's program; says what went wrong.
pub type Body = Box<dyn FnOnce() -> Result<(), String>>;

struct Thread {
    co: Coroutine<(), Op, Result<(), String>>,
    next: Option<Op>,
}

fn start(body: Body) -> Thread {
    let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(256 << 10).expect("stack"));
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), Op>, ()| {
        CURRENT.with(|c| c.set(y));
        match catch_unwind(AssertUnwindSafe(body)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", kulmc::engine::panic_msg(p))),
        }
    });
    Thread { co, next: None }
}

impl Thread {
    /// Run to the next operation.  Gives whether it ended, and how.
    fn go(&mut self, me: &mut *const Yielder<(), Op>) -> Option<Result<(), String>> {
        CURRENT.with(|c| c.set(*me));
        let r = self.co.resume(());
        *me = CURRENT.with(|c| c.replace(std::ptr::null()));
        match r {
            CoroutineResult::Yield(op) => {
                self.next = Some(op);
                None
            }
            CoroutineResult::Return(r) => {
                self.next = None;
                Some(r)
            }
        }
    }
}

/// A point of decision on the current path.
struct Node {
    kinds: Vec<Option<Kind>>,
    /// Those not to be chosen here.
    sleep: u32,
    done: u32,
    chosen: usize,
    /// Interruptions before this point, and who would be interrupted here.
    spent: u32,
    last: Option<usize>,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub schedules: u64,
    pub cut: u64,
    pub steps: u64,
    pub longest: usize,
}

const LONG: usize = 20_000;

/// One execution along `path`, extended by the first possible choices.
/// `Ok(false)`: cut short, as all that could follow is explored elsewhere.
fn execute(bound: Option<u32>, make: &mut dyn FnMut() -> Vec<Body>, after: &mut dyn FnMut() -> Result<(), String>, path: &mut Vec<Node>, stats: &mut Stats) -> Result<bool, String> {
    let mut threads: Vec<Thread> = make().into_iter().map(start).collect();
    let mut us: Vec<*const Yielder<(), Op>> = vec![std::ptr::null(); threads.len()];
    let mut result: Result<(), String> = Ok(());
    fn note(i: usize, r: Option<Result<(), String>>, result: &mut Result<(), String>) {
        if let Some(Err(m)) = r {
            if result.is_ok() {
                *result = Err(format!("thread {i}: {m}"));
            }
        }
    }
    for i in 0..threads.len() {
        let r = threads[i].go(&mut us[i]);
        note(i, r, &mut result);
    }
    let mut depth = 0;
    let mut sleep: u32 = 0;
    let mut spent: u32 = 0;
    let mut last: Option<usize> = None;
    let mut free = false;
    let mut whole = true;
    while threads.iter().any(|t| t.next.is_some()) {
        if depth > LONG {
            // Leave the coroutines as they are.
            std::mem::forget(threads);
            return Err(format!("no end after {LONG} operations"));
        }
        let on = |i: &usize| threads[*i].next.is_some();
        let choice = if free {
            (0..threads.len()).find(on).unwrap()
        } else if depth < path.len() {
            let n = &path[depth];
            for (i, t) in threads.iter().enumerate() {
                if t.next.map(|o| o.kind) != n.kinds[i] {
                    // The exploration would mean nothing: not a finding.
                    eprintln!("the same choices led elsewhere");
                    std::process::exit(20);
                }
            }
            // Those explored before sleep in what follows.
            sleep = if bound.is_none() { n.sleep | (n.done & !(1 << n.chosen)) } else { 0 };
            n.chosen
        } else {
            let last = last.filter(on);
            // With a bound, begin with going on, which costs nothing.
            let going_on = last.filter(|_| bound.is_some());
            match going_on.or_else(|| (0..threads.len()).filter(on).find(|i| sleep >> i & 1 == 0)) {
                Some(c) => {
                    path.push(Node { kinds: threads.iter().map(|t| t.next.map(|o| o.kind)).collect(), sleep, done: 1 << c, chosen: c, spent, last });
                    c
                }
                None => {
                    // Everything possible here has been seen: just finish.
                    free = true;
                    whole = false;
                    (0..threads.len()).find(on).unwrap()
                }
            }
        };
        let op = threads[choice].next.unwrap();
        spent += last.is_some_and(|l| l != choice && on(&l)) as u32;
        last = Some(choice);
        if bound.is_none() && !free {
            for (i, t) in threads.iter().enumerate() {
                if let Some(o) = t.next {
                    if i == choice || dependent(o, op) {
                        sleep &= !(1 << i);
                    }
                }
            }
        }
        let r = threads[choice].go(&mut us[choice]);
        note(choice, r, &mut result);
        stats.steps += 1;
        depth += 1;
    }
    stats.longest = stats.longest.max(depth);
    for t in threads {
        STACKS.with(|s| s.borrow_mut().push(t.co.into_stack()));
    }
    result?;
    after()?;
    Ok(whole)
}

/// Explore every interleaving, or, given a bound, every one in which at most
/// so many times a thread is interrupted before its end.  `make` gives the
/// threads' programs, `after` judges what is left when all have ended.
/// `Ok(false)`: not all was explored, because that takes more than `most` steps.
pub fn explore(bound: Option<u32>, most: u64, make: &mut dyn FnMut() -> Vec<Body>, after: &mut dyn FnMut() -> Result<(), String>, alive: &dyn Fn()) -> (Stats, Result<bool, String>) {
    let mut stats = Stats::default();
    let mut path: Vec<Node> = vec![];
    loop {
        if stats.steps >= most {
            return (stats, Ok(false));
        }
        let r = execute(bound, make, after, &mut path, &mut stats);
        alive();
        match r {
            Ok(true) => stats.schedules += 1,
            Ok(false) => stats.cut += 1,
            Err(m) => {
                let order: String = path.iter().map(|n| char::from(b'A' + n.chosen as u8)).collect();
                return (stats, Err(format!("{m} (order of operations: {order})")));
            }
        }
        // The next choice at the deepest point that has one.
        loop {
            let Some(n) = path.last_mut() else { return (stats, Ok(true)) };
            let allowed = n.last.is_none() || bound.is_none_or(|b| n.spent < b);
            let next = (0..n.kinds.len()).find(|i| n.kinds[*i].is_some() && (n.sleep | n.done) >> i & 1 == 0 && allowed);
            match next {
                Some(c) => {
                    n.done |= 1 << c;
                    n.chosen = c;
                    break;
                }
                None => {
                    path.pop();
                }
            }
        }
    }
}
