//! Graphs of datums in every counted reference type, with strong and weak handles.

use kul::datum::{DatumArc, DatumBox, DatumRc};
use kul::drop::{algo1, Algo1DatumRef, RcLike, RcLikeAtomicCounts};
use kul::{Datum, DerefTryMut};
use std::cell::Cell;
use std::ops::{Deref, DerefMut};
use std::rc::{Rc, Weak as RcWeak};
use std::sync::{Arc, Weak as ArcWeak};

/// A reference type and its weak companion.
pub trait Refs: 'static {
    const NAME: &'static str;
    /// Can a node be referenced more than once?
    const SHARES: bool;
    type P: 'static;
    type DR: DerefTryMut<Target = Datum<Self::P, Self::P, Self::DR>> + 'static;
    type Weak: Clone + 'static;
    fn mk(d: Datum<Self::P, Self::P, Self::DR>) -> Self::DR;
    fn dup(d: &Self::DR) -> Self::DR;
    fn weak(d: &Self::DR) -> Option<Self::Weak>;
    fn up(w: &Self::Weak) -> Option<Self::DR>;
}

pub struct BoxR<P>(std::marker::PhantomData<P>);
impl<P: 'static> Refs for BoxR<P> {
    const NAME: &'static str = "box";
    const SHARES: bool = false;
    type P = P;
    type DR = DatumBox<P, P>;
    type Weak = ();
    fn mk(d: Datum<P, P, Self::DR>) -> Self::DR {
        DatumBox::new(d)
    }
    fn dup(_: &Self::DR) -> Self::DR {
        unreachable!()
    }
    fn weak(_: &Self::DR) -> Option<()> {
        None
    }
    fn up(_: &()) -> Option<Self::DR> {
        None
    }
}

pub struct RcR<P>(std::marker::PhantomData<P>);
impl<P: 'static> Refs for RcR<P> {
    const NAME: &'static str = "rc";
    const SHARES: bool = true;
    type P = P;
    type DR = DatumRc<P, P>;
    type Weak = RcWeak<Datum<P, P, DatumRc<P, P>>>;
    fn mk(d: Datum<P, P, Self::DR>) -> Self::DR {
        DatumRc::new(d)
    }
    fn dup(d: &Self::DR) -> Self::DR {
        DatumRc(d.0.clone())
    }
    fn weak(d: &Self::DR) -> Option<Self::Weak> {
        Some(Rc::downgrade(&d.0))
    }
    fn up(w: &Self::Weak) -> Option<Self::DR> {
        w.upgrade().map(DatumRc)
    }
}

pub struct ArcR<P>(std::marker::PhantomData<P>);
impl<P: 'static> Refs for ArcR<P> {
    const NAME: &'static str = "arc";
    const SHARES: bool = true;
    type P = P;
    type DR = DatumArc<P, P>;
    type Weak = ArcWeak<Datum<P, P, DatumArc<P, P>>>;
    fn mk(d: Datum<P, P, Self::DR>) -> Self::DR {
        DatumArc::new(d)
    }
    fn dup(d: &Self::DR) -> Self::DR {
        DatumArc(d.0.clone())
    }
    fn weak(d: &Self::DR) -> Option<Self::Weak> {
        Some(Arc::downgrade(&d.0))
    }
    fn up(w: &Self::Weak) -> Option<Self::DR> {
        w.upgrade().map(DatumArc)
    }
}

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
}
fn step() {
    STEPS.with(|c| c.set(c.get() + 1));
}
/// Operations done so far by this thread on the user-defined references below.
pub fn steps() -> u64 {
    STEPS.with(|c| c.get())
}

/// User-defined references over the drop facility: one that only offers
/// unwrapping, one that offers counts as well, and an owning one.
macro_rules! mine {
    ($dr:ident, $refs:ident, $name:expr) => {
        pub struct $dr<P>(Option<Rc<Datum<P, P, $dr<P>>>>);
        impl<P> Deref for $dr<P> {
            type Target = Datum<P, P, $dr<P>>;
            fn deref(&self) -> &Self::Target {
                step();
                self.0.as_ref().unwrap()
            }
        }
        impl<P> DerefTryMut for $dr<P> {
            fn get_mut(this: &mut Self) -> Option<&mut Self::Target> {
                step();
                Rc::get_mut(this.0.as_mut().unwrap())
            }
        }
        impl<P> RcLike for $dr<P> {
            type RC = Mine<Datum<P, P, $dr<P>>>;
            fn get_rc(this: &mut Self) -> &mut Self::RC {
                step();
                Mine::of(&mut this.0)
            }
            fn new_rc(val: Datum<P, P, $dr<P>>) -> Self::RC {
                step();
                Mine(Some(Rc::new(val)))
            }
            fn try_unwrap(rc: Self::RC) -> Result<Datum<P, P, $dr<P>>, Self::RC> {
                step();
                Rc::try_unwrap(rc.0.unwrap()).map_err(|r| Mine(Some(r)))
            }
        }
        impl<P> Drop for $dr<P> {
            fn drop(&mut self) {
                step();
                algo1(self);
            }
        }
        pub struct $refs<P>(std::marker::PhantomData<P>);
        impl<P: 'static> Refs for $refs<P> {
            const NAME: &'static str = $name;
            const SHARES: bool = true;
            type P = P;
            type DR = $dr<P>;
            type Weak = RcWeak<Datum<P, P, $dr<P>>>;
            fn mk(d: Datum<P, P, Self::DR>) -> Self::DR {
                $dr(Some(Rc::new(d)))
            }
            fn dup(d: &Self::DR) -> Self::DR {
                $dr(d.0.clone())
            }
            fn weak(d: &Self::DR) -> Option<Self::Weak> {
                Some(Rc::downgrade(d.0.as_ref().unwrap()))
            }
            fn up(w: &Self::Weak) -> Option<Self::DR> {
                w.upgrade().map(|r| $dr(Some(r)))
            }
        }
    };
}

/// The counted pointer inside; transparent so that it can be viewed in place.
#[repr(transparent)]
pub struct Mine<T>(Option<Rc<T>>);
impl<T> Mine<T> {
    fn of(o: &mut Option<Rc<T>>) -> &mut Mine<T> {
        unsafe { &mut *(o as *mut Option<Rc<T>> as *mut Mine<T>) }
    }
}
impl<T> Deref for Mine<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}

mine!(PlainRc, PlainR, "user-plain");
mine!(CountRc, CountR, "user-counts");

impl<P> Algo1DatumRef for PlainRc<P> {
    fn try_replace(this: &mut Self, val: Self::Target) -> Result<Self::Target, Self::Target> {
        step();
        RcLike::try_replace(this, val)
    }
    fn set(this: &mut Self, val: Self::Target) {
        step();
        RcLike::set(this, val)
    }
}
impl<P> RcLikeAtomicCounts for CountRc<P> {
    fn counts(this: &Self) -> (usize, usize) {
        step();
        let r = this.0.as_ref().unwrap();
        (Rc::strong_count(r), Rc::weak_count(r))
    }
}
impl<P> Algo1DatumRef for CountRc<P> {
    fn try_replace(this: &mut Self, val: Self::Target) -> Result<Self::Target, Self::Target> {
        step();
        RcLikeAtomicCounts::try_replace_optim(this, val)
    }
    fn set(this: &mut Self, val: Self::Target) {
        step();
        RcLike::set(this, val)
    }
}

pub struct OwnBox<P>(Box<Datum<P, P, OwnBox<P>>>);
impl<P> Deref for OwnBox<P> {
    type Target = Datum<P, P, OwnBox<P>>;
    fn deref(&self) -> &Self::Target {
        step();
        &self.0
    }
}
impl<P> DerefMut for OwnBox<P> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        step();
        &mut self.0
    }
}
impl<P> DerefTryMut for OwnBox<P> {
    fn get_mut(this: &mut Self) -> Option<&mut Self::Target> {
        Some(this)
    }
}
impl<P> Algo1DatumRef for OwnBox<P> {
    fn try_replace(this: &mut Self, val: Self::Target) -> Result<Self::Target, Self::Target> {
        Ok(std::mem::replace(&mut **this, val))
    }
    fn set(this: &mut Self, val: Self::Target) {
        **this = val;
    }
}
impl<P> Drop for OwnBox<P> {
    fn drop(&mut self) {
        step();
        algo1(self);
    }
}
pub struct OwnR<P>(std::marker::PhantomData<P>);
impl<P: 'static> Refs for OwnR<P> {
    const NAME: &'static str = "user-box";
    const SHARES: bool = false;
    type P = P;
    type DR = OwnBox<P>;
    type Weak = ();
    fn mk(d: Datum<P, P, Self::DR>) -> Self::DR {
        OwnBox(Box::new(d))
    }
    fn dup(_: &Self::DR) -> Self::DR {
        unreachable!()
    }
    fn weak(_: &Self::DR) -> Option<()> {
        None
    }
    fn up(_: &()) -> Option<Self::DR> {
        None
    }
}

/// A node of a graph; children come earlier in the list.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Leaf,
    Branch { comb: bool, left: usize, right: usize },
}

#[derive(Clone, Default, Hash, PartialEq, Eq, Debug)]
pub struct Graph {
    pub nodes: Vec<Node>,
}

impl Graph {
    pub fn leaf(&mut self) -> usize {
        self.nodes.push(Node::Leaf);
        self.nodes.len() - 1
    }
    pub fn branch(&mut self, comb: bool, left: usize, right: usize) -> usize {
        self.nodes.push(Node::Branch { comb, left, right });
        self.nodes.len() - 1
    }
    /// How often each node is referred to by the handles and from within.
    pub fn counts(&self, strong: &[usize]) -> Vec<usize> {
        let mut n = vec![0; self.nodes.len()];
        for s in strong {
            n[*s] += 1;
        }
        for x in &self.nodes {
            if let Node::Branch { left, right, .. } = x {
                n[*left] += 1;
                n[*right] += 1;
            }
        }
        n
    }
    /// Take away one reference; returns the nodes released by that.
    pub fn release(&self, counts: &mut [usize], node: usize, out: &mut Vec<usize>) {
        let mut todo = vec![node];
        while let Some(x) = todo.pop() {
            counts[x] -= 1;
            if counts[x] == 0 {
                out.push(x);
                if let Node::Branch { left, right, .. } = self.nodes[x] {
                    todo.push(left);
                    todo.push(right);
                }
            }
        }
    }
    /// Build it; returns the strong handles asked for, and the weak ones.
    pub fn build<R: Refs>(
        &self,
        strong: &[usize],
        weak: &[usize],
        leaf: &mut dyn FnMut(usize) -> Datum<R::P, R::P, R::DR>,
    ) -> (Vec<R::DR>, Vec<R::Weak>) {
        let total = self.counts(strong);
        // The remaining references of each node, all made when it is.
        let mut refs: Vec<Vec<R::DR>> = Vec::with_capacity(self.nodes.len());
        let mut weaks: Vec<Option<R::Weak>> = vec![];
        for (i, n) in self.nodes.iter().enumerate() {
            let d = match *n {
                Node::Leaf => leaf(i),
                Node::Branch { comb, left, right } => {
                    let l = refs[left].pop().unwrap();
                    let r = refs[right].pop().unwrap();
                    if comb {
                        Datum::Combination { operator: l, operands: r }
                    } else {
                        Datum::List { elem: l, next: r }
                    }
                }
            };
            let d = R::mk(d);
            weaks.push(R::weak(&d));
            let mut v = Vec::with_capacity(total[i]);
            for _ in 1..total[i] {
                v.push(R::dup(&d));
            }
            if total[i] > 0 {
                v.push(d);
            }
            refs.push(v);
        }
        let s = strong.iter().map(|&i| refs[i].pop().unwrap()).collect();
        let w = if weak.is_empty() { vec![] } else { weak.iter().filter_map(|&i| weaks[i].clone()).collect() };
        (s, w)
    }
}
