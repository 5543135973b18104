//! The one pseudo-random generator everything is derived from.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    r.next();
    r.next()
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf2_9ce4_8422_2325 } else { h };
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.next() % den as u64) < num as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// A value spread over magnitudes: 0..=max, small values favoured.
    pub fn log(&mut self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        let bits = 64 - max.leading_zeros();
        let b = self.below(bits as usize + 1) as u32;
        let m = if b == 0 { 0 } else { self.next() & ((1u128 << b) - 1) as u64 };
        if m > max {
            m % (max + 1)
        } else {
            m
        }
    }
    /// Picks an index by weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let s: u32 = w.iter().sum();
        let mut x = (self.next() % s as u64) as u32;
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
}
