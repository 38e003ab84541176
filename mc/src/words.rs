//! Enumeration of words over finite alphabets.

/// All words of length exactly `len`, as a contiguous index range 0..k^len.
pub fn count(k: u64, len: u32) -> u64 {
    k.pow(len)
}

/// Visit every word over `0..k` with length in `0..=max` whose first `prefix.len()`
/// symbols are `prefix`, in depth-first order.
pub fn visit(k: usize, prefix: &[usize], max: usize, f: &mut dyn FnMut(&[usize]) -> bool) {
    let mut w = prefix.to_vec();
    fn go(k: usize, w: &mut Vec<usize>, max: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if !f(w) {
            return false;
        }
        if w.len() < max {
            for s in 0..k {
                w.push(s);
                let r = go(k, w, max, f);
                w.pop();
                if !r {
                    return false;
                }
            }
        }
        true
    }
    go(k, &mut w, max, f);
}

/// Split the space of words up to `max` into independent subtrees: all words
/// shorter than `d` are items of their own, words of length `d` root a subtree.
pub struct Split {
    pub k: usize,
    pub d: usize,
    pub max: usize,
    short: u64,
}

impl Split {
    pub fn new(k: usize, max: usize, target: u64) -> Split {
        let mut d = 0;
        let mut n = 1u64;
        while n < target && d < max {
            n *= k as u64;
            d += 1;
        }
        let mut short = 0;
        for i in 0..d {
            short += (k as u64).pow(i as u32);
        }
        Split { k, d, max, short }
    }
    pub fn items(&self) -> u64 {
        self.short + (self.k as u64).pow(self.d as u32)
    }
    fn nth(&self, mut i: u64) -> (Vec<usize>, bool) {
        let mut len = 0;
        loop {
            let n = (self.k as u64).pow(len as u32);
            if i < n {
                break;
            }
            i -= n;
            len += 1;
        }
        let mut w = vec![0; len];
        for p in (0..len).rev() {
            w[p] = (i % self.k as u64) as usize;
            i /= self.k as u64;
        }
        (w, len == self.d)
    }
    /// Visit all words of work item `i`.
    pub fn visit(&self, i: u64, f: &mut dyn FnMut(&[usize]) -> bool) {
        let (w, sub) = self.nth(i);
        if sub {
            visit(self.k, &w, self.max, f);
        } else {
            f(&w);
        }
    }
}

/// All words with length in `min..=max`, materialised as strings.
pub fn strings(alpha: &[&str], min: usize, max: usize) -> Vec<String> {
    let mut out = vec![];
    visit(alpha.len(), &[], max, &mut |w| {
        if w.len() >= min {
            out.push(w.iter().map(|&i| alpha[i]).collect());
        }
        true
    });
    out
}

pub fn join(alpha: &[&str], w: &[usize], out: &mut String) {
    out.clear();
    for &i in w {
        out.push_str(alpha[i]);
    }
}
