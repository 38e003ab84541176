//! An allocator whose requests can be made to fail.

use crate::imp::DaDatum;
use kul::parser::{AllocError, DatumAllocator};

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Plan {
    /// Requests from this number on fail.
    pub budget: Option<usize>,
    /// These requests fail.
    pub fail: [Option<usize>; 2],
}

pub struct Fault<A> {
    pub inner: A,
    pub plan: Plan,
    /// Requests made.
    pub count: usize,
    /// Requests refused, by the plan or by the inner allocator.
    pub failed: usize,
}

impl<A> Fault<A> {
    pub fn new(inner: A) -> Self {
        Fault { inner, plan: Plan::default(), count: 0, failed: 0 }
    }
}

impl<A: DatumAllocator> DatumAllocator for Fault<A> {
    type TT = A::TT;
    type ET = A::ET;
    type DR = A::DR;
    fn new_datum(&mut self, from: DaDatum<A>) -> Result<A::DR, AllocError> {
        let i = self.count;
        self.count += 1;
        if self.plan.budget.is_some_and(|b| i >= b) || self.plan.fail.contains(&Some(i)) {
            self.failed += 1;
            return Err(AllocError::AllocExhausted);
        }
        let r = self.inner.new_datum(from);
        if r.is_err() {
            self.failed += 1;
        }
        r
    }
}
