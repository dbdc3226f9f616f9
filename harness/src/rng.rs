//! Thin helpers over the proptest RNG; every random choice of the harness goes through here.
use rand::Rng;

pub struct G<'a> {
    r: &'a mut dyn Rng,
}

impl<'a> G<'a> {
    pub fn new(r: &'a mut dyn Rng) -> Self {
        G { r }
    }
    pub fn u64(&mut self) -> u64 {
        self.r.next_u64()
    }
    /// uniform in [0, 1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// uniform in [a, b]
    pub fn int(&mut self, a: usize, b: usize) -> usize {
        a + (self.u64() % ((b - a + 1) as u64)) as usize
    }
    /// log-uniform integer in [a, b], a >= 1
    pub fn log_int(&mut self, a: usize, b: usize) -> usize {
        let lo = (a as f64).ln();
        let hi = ((b + 1) as f64).ln();
        let v = (lo + (hi - lo) * self.unit()).exp().floor() as usize;
        v.clamp(a, b)
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn log_range(&mut self, a: f64, b: f64) -> f64 {
        (a.ln() + (b.ln() - a.ln()) * self.unit()).exp()
    }
    pub fn bool(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 {
            1.0
        } else {
            -1.0
        }
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.int(0, xs.len() - 1)]
    }
    /// index drawn with the given integer weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut r = (self.u64() % tot as u64) as u32;
        for (i, &x) in w.iter().enumerate() {
            if r < x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    pub fn normal(&mut self) -> f64 {
        let u1 = self.unit().max(1e-300);
        let u2 = self.unit();
        (-2.0 * u1.ln()).sqrt() * (2.0 * std::f64::consts::PI * u2).cos()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.int(0, i);
            xs.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
}

/// small deterministic generator for choices stored in a case as a seed (layouts, ...)
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}
