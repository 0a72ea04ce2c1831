//! Small deterministic PRNG (splitmix64 seeded xorshift128+), no external crates.

#[derive(Clone)]
pub struct Rng {
    a: u64,
    b: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let a = mix(seed);
        let b = mix(a) | 1;
        Rng { a, b }
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.a;
        let y = self.b;
        self.a = y;
        x ^= x << 23;
        self.b = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.b.wrapping_add(y)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.next() >> 11) % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, p: usize, q: usize) -> bool {
        self.below(q) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 20) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        unreachable!()
    }
}

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf29ce484222325)
    }
    pub fn add(&mut self, data: &[u8]) {
        for b in data {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
        self.0 ^= 0xff;
        self.0 = self.0.wrapping_mul(0x100000001b3);
    }
    pub fn num(&mut self, n: u64) {
        self.add(&n.to_le_bytes());
    }
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut f = Fnv::new();
    f.add(data);
    mix(f.0)
}
