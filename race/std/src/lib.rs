//! The standard library with an `Arc` that announces every operation on its
//! counts before doing it.

#![no_std]
extern crate std as real;

pub use real::*;

/// Where operations are announced.
pub mod sched {
    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
    pub enum Kind {
        Clone,
        Drop,
        Unwrap,
        GetMut,
        Count,
        Downgrade,
        Upgrade,
        WeakClone,
        WeakDrop,
    }

    static HOOK: AtomicUsize = AtomicUsize::new(0);

    /// Have `f` called before every operation with the address of the shared
    /// allocation.
    pub fn set_hook(f: fn(usize, Kind)) {
        HOOK.store(f as usize, Relaxed);
    }

    pub(crate) fn point(addr: usize, kind: Kind) {
        let f = HOOK.load(Relaxed);
        if f != 0 {
            let f: fn(usize, Kind) = unsafe { core::mem::transmute(f) };
            f(addr, kind);
        }
    }
}

pub mod sync {
    use crate::sched::{point, Kind};
    use core::borrow::Borrow;
    use core::fmt;
    use core::hash::{Hash, Hasher};
    use core::mem::ManuallyDrop;
    use core::ops::Deref;
    use core::cmp::Ordering;
    use real::sync as rs;

    pub use real::sync::*;

    pub struct Arc<T: ?Sized>(ManuallyDrop<rs::Arc<T>>);
    pub struct Weak<T: ?Sized>(ManuallyDrop<rs::Weak<T>>);

    fn addr<T: ?Sized>(a: &rs::Arc<T>) -> usize {
        rs::Arc::as_ptr(a) as *const () as usize
    }
    fn waddr<T: ?Sized>(a: &rs::Weak<T>) -> usize {
        a.as_ptr() as *const () as usize
    }

    impl<T: ?Sized> Arc<T> {
        fn wrap(a: rs::Arc<T>) -> Self {
            Arc(ManuallyDrop::new(a))
        }
        /// Take the inner one out, without dropping.
        fn open(self) -> rs::Arc<T> {
            let mut this = ManuallyDrop::new(self);
            unsafe { ManuallyDrop::take(&mut this.0) }
        }
        /// Nobody else can get at it while its only owner holds it exclusively.
        fn private(&self) -> bool {
            rs::Arc::strong_count(&self.0) == 1 && rs::Arc::weak_count(&self.0) == 0
        }
        /// An operation of somebody who holds this handle exclusively.
        fn excl(&self, k: Kind) {
            if !self.private() {
                point(addr(&self.0), k);
            }
        }
        fn shared(&self, k: Kind) {
            point(addr(&self.0), k);
        }
        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
            this.excl(Kind::GetMut);
            rs::Arc::get_mut(&mut this.0)
        }
        pub fn ptr_eq(a: &Self, b: &Self) -> bool {
            rs::Arc::ptr_eq(&a.0, &b.0)
        }
        pub fn as_ptr(this: &Self) -> *const T {
            rs::Arc::as_ptr(&this.0)
        }
        pub fn strong_count(this: &Self) -> usize {
            this.shared(Kind::Count);
            rs::Arc::strong_count(&this.0)
        }
        pub fn weak_count(this: &Self) -> usize {
            this.shared(Kind::Count);
            rs::Arc::weak_count(&this.0)
        }
        /// Both counts at one instant (for reference types that can do so).
        pub fn both_counts(this: &Self) -> (usize, usize) {
            this.shared(Kind::Count);
            (rs::Arc::strong_count(&this.0), rs::Arc::weak_count(&this.0))
        }
        pub fn downgrade(this: &Self) -> Weak<T> {
            this.shared(Kind::Downgrade);
            Weak(ManuallyDrop::new(rs::Arc::downgrade(&this.0)))
        }
    }

    impl<T> Arc<T> {
        pub fn new(t: T) -> Self {
            Self::wrap(rs::Arc::new(t))
        }
        pub fn try_unwrap(this: Self) -> Result<T, Self> {
            this.excl(Kind::Unwrap);
            rs::Arc::try_unwrap(this.open()).map_err(Self::wrap)
        }
        pub fn into_inner(this: Self) -> Option<T> {
            this.excl(Kind::Drop);
            rs::Arc::into_inner(this.open())
        }
        pub fn unwrap_or_clone(this: Self) -> T
        where
            T: Clone,
        {
            Self::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
        }
    }

    impl<T: Clone> Arc<T> {
        pub fn make_mut(this: &mut Self) -> &mut T {
            this.excl(Kind::GetMut);
            rs::Arc::make_mut(&mut this.0)
        }
    }

    impl<T: ?Sized> Drop for Arc<T> {
        fn drop(&mut self) {
            self.excl(Kind::Drop);
            unsafe { ManuallyDrop::drop(&mut self.0) }
        }
    }
    impl<T: ?Sized> Clone for Arc<T> {
        fn clone(&self) -> Self {
            self.shared(Kind::Clone);
            Self::wrap(rs::Arc::clone(&self.0))
        }
    }

    impl<T> Weak<T> {
        pub const fn new() -> Self {
            Weak(ManuallyDrop::new(rs::Weak::new()))
        }
    }
    impl<T: ?Sized> Weak<T> {
        pub fn upgrade(&self) -> Option<Arc<T>> {
            point(waddr(&self.0), Kind::Upgrade);
            self.0.upgrade().map(Arc::wrap)
        }
        pub fn strong_count(&self) -> usize {
            point(waddr(&self.0), Kind::Count);
            self.0.strong_count()
        }
        pub fn weak_count(&self) -> usize {
            point(waddr(&self.0), Kind::Count);
            self.0.weak_count()
        }
        pub fn ptr_eq(&self, other: &Self) -> bool {
            self.0.ptr_eq(&other.0)
        }
    }
    impl<T: ?Sized> Clone for Weak<T> {
        fn clone(&self) -> Self {
            point(waddr(&self.0), Kind::WeakClone);
            Weak(self.0.clone())
        }
    }
    impl<T: ?Sized> Drop for Weak<T> {
        fn drop(&mut self) {
            point(waddr(&self.0), Kind::WeakDrop);
            unsafe { ManuallyDrop::drop(&mut self.0) }
        }
    }
    impl<T> Default for Weak<T> {
        fn default() -> Self {
            Weak::new()
        }
    }
    impl<T: ?Sized> fmt::Debug for Weak<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("(Weak)")
        }
    }

    impl<T: ?Sized> Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
    impl<T: ?Sized> AsRef<T> for Arc<T> {
        fn as_ref(&self) -> &T {
            &self.0
        }
    }
    impl<T: ?Sized> Borrow<T> for Arc<T> {
        fn borrow(&self) -> &T {
            &self.0
        }
    }
    impl<T: ?Sized, U> From<U> for Arc<T>
    where
        rs::Arc<T>: From<U>,
    {
        fn from(u: U) -> Self {
            Self::wrap(u.into())
        }
    }
    impl<T: ?Sized> Default for Arc<T>
    where
        rs::Arc<T>: Default,
    {
        fn default() -> Self {
            Self::wrap(Default::default())
        }
    }
    impl<T> FromIterator<T> for Arc<[T]> {
        fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
            Self::wrap(i.into_iter().collect())
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
        fn eq(&self, o: &Self) -> bool {
            **self == **o
        }
    }
    impl<T: ?Sized + Eq> Eq for Arc<T> {}
    impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            (**self).partial_cmp(&**o)
        }
    }
    impl<T: ?Sized + Ord> Ord for Arc<T> {
        fn cmp(&self, o: &Self) -> Ordering {
            (**self).cmp(&**o)
        }
    }
    impl<T: ?Sized + Hash> Hash for Arc<T> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            (**self).hash(h)
        }
    }
}
