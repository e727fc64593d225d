//! A stream of choices. Every random decision of a generator is read from one
//! `Vec<u16>` owned by proptest, so shrinking and replay need nothing else.
//! An exhausted stream answers 0, and 0 is always the simplest choice.

pub struct Src<'a> {
    d: &'a [u16],
    p: usize,
}

impl<'a> Src<'a> {
    pub fn new(d: &'a [u16]) -> Self {
        Src { d, p: 0 }
    }
    /// How many choices were asked for.
    pub fn used(&self) -> usize {
        self.p
    }
    pub fn done(&self) -> bool {
        self.p >= self.d.len()
    }
    pub fn raw(&mut self) -> u16 {
        let r = self.d.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.raw() as usize % n
    }
    /// true with probability about num/den; false when exhausted
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let r = self.raw() as usize % den;
        r >= den - num
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
    /// Weighted choice; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut r = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        0
    }
}
