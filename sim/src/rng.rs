//! The only source of randomness of the simulator: xoshiro256** seeded from one u64.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Seed of run `i` of property `prop` under base seed `seed`.
pub fn mix(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = seed ^ 0xA5A5_5A5A_1234_5678;
    for b in prop.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100000001B3);
    }
    let mut x = h ^ i.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x);
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// Uniform in 0..1.
    pub fn unit(&mut self) -> f64 {
        let n = 1u64 << 53;
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64 as f64 / n as f64
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// Small numbers likely, up to `max`.
    pub fn skewed(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let bits = 64 - (max as u64).leading_zeros() as usize;
        let b = self.range(0, bits);
        let m = if b >= 63 { max } else { ((1usize << b) - 1).min(max) };
        self.range(0, m.max(1)).min(max)
    }
    /// Index with the given weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total.max(1));
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        0
    }
    /// Interesting integers of a given byte width (as raw little-endian bit pattern).
    pub fn edgy(&mut self, width: usize) -> u64 {
        let mask = if width >= 8 { u64::MAX } else { (1u64 << (8 * width)) - 1 };
        let v = match self.below(8) {
            0 => 0,
            1 => mask,
            2 => mask >> 1,
            3 => (mask >> 1) + 1,
            4 => 1u64 << self.below(8 * width),
            5 => self.below(256) as u64,
            _ => self.u64(),
        };
        v & mask
    }
}
