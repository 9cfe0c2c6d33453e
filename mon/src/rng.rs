//! Deterministic generator (xoshiro256**, seeded through splitmix64).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1) as u64) as i64)
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 * (1.0 / (1u64 << 53) as f64)
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn sym(&mut self, a: f64) -> f64 {
        self.f(-a, a)
    }
    pub fn gauss(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (std::f64::consts::TAU * v).cos()
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.usize(i + 1);
            xs.swap(i, j);
        }
    }
    /// Once in a long while a size up to a million, for what is checked in
    /// linear time.
    pub fn giant(&mut self) -> Option<usize> {
        self.chance(1, 25_000).then(|| 10f64.powf(3.5 + 2.5 * self.unit()) as usize)
    }
    /// [`Rng::giant`] or else [`Rng::size`].
    pub fn vast(&mut self, max: usize) -> usize {
        self.giant().unwrap_or_else(|| self.size(max))
    }
    /// A size with a heavy head and a long tail, in 0..=max.
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.below(20) {
            0..=5 => 6,
            6..=12 => 24,
            13..=16 => 90,
            17..=18 => 300,
            _ if max >= 24 && self.chance(1, 60) => {
                // beyond the usual, for what only happens past some size
                let k = self.int(1, 5);
                return self.usize(max << k) + max;
            }
            _ => max,
        };
        self.usize(m.min(max) + 1)
    }
}
