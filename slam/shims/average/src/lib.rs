//! Stand-in for `average`: the running mean.
#[derive(Debug, Clone, Default)]
pub struct Mean {
    avg: f64,
    n: u64,
}
impl Mean {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, v: f64) {
        self.n += 1;
        self.avg += (v - self.avg) / self.n as f64;
    }
    /// Of nothing at all, this is not a number.
    pub fn mean(&self) -> f64 {
        if self.n == 0 {
            f64::NAN
        } else {
            self.avg
        }
    }
    pub fn len(&self) -> u64 {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
}
impl FromIterator<f64> for Mean {
    fn from_iter<I: IntoIterator<Item = f64>>(it: I) -> Self {
        let mut m = Mean::new();
        it.into_iter().for_each(|v| m.add(v));
        m
    }
}
impl Extend<f64> for Mean {
    fn extend<I: IntoIterator<Item = f64>>(&mut self, it: I) {
        it.into_iter().for_each(|v| self.add(v));
    }
}
