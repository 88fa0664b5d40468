//! The only source of choices. One integer in, one execution out.
use crate::rt::splitmix;

#[derive(Clone)]
pub struct R(pub u64);
impl R {
    pub fn new(seed: u64) -> R {
        R(seed)
    }
    pub fn u(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u() >> 11) % n as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    /// true `p` times in 100
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
